------------------------------ MODULE StdCont ------------------------------
(* Standard containers whose typed allocators share their state.

   s = [c, hs]   c: container -> [t, s, ar]: its type, its elements in order and the shared state ("arena") it uses
                 hs: handle -> arena; handles are allocators kept aside, which containers may be given
   Containers with keys have elements key * 1000 + value, sorted.  An arena is a number. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Keyed(t) == t \in {"si", "mh", "ui", "um"}
Lists(t) == t \in {"li", "lh", "fi"}
Any7 == <<-7777>>                                                 \* whatever the elements are after they were moved from

Less(x, y) == x < y
Sorted(s) == \A i \in 2..Len(s) : s[i - 1] <= s[i]
Sort(s) == SortSeq(s, Less)
Cut(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))       \* without the elements i..j-1, counting from 0
Fill(n, x) == [i \in 1..n |-> x]
InsAt(s, i, t) == SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))
RECURSIVE Unique(_)
Unique(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Unique(Tail(s)) ELSE <<s[1]>> \o Unique(Tail(s))
Key(x) == x \div 1000
Has(s, k) == \E i \in 1..Len(s) : Key(s[i]) = k
NotKey(s, k) == LET Keep(x) == Key(x) # k IN SelectSeq(s, Keep)
OnlyKey(s, k) == LET Keep(x) == Key(x) = k IN SelectSeq(s, Keep)
AddKey(s, x) == IF Has(s, Key(x)) THEN s ELSE Sort(Append(s, x))
RECURSIVE AddKeys(_, _)
AddKeys(s, q) == IF q = <<>> THEN s ELSE AddKeys(AddKey(s, q[1]), Tail(q))

Used(s) == {s.hs[h] : h \in DOMAIN s.hs} \cup {s.c[v].ar : v \in DOMAIN s.c}
FreshAr(s) == CHOOSE n \in 1..(Cardinality(Used(s)) + 1) : n \notin Used(s) /\ \A m \in 1..n-1 : m \in Used(s)

Creates(op) == op \in {"new", "newi", "newr", "ccon", "mcon", "ccona", "mcona"}
Handles(op) == op \in {"hnd", "hcp", "drop"}
Pairs(op) == op \in {"newr", "ccon", "mcon", "ccona", "mcona", "cass", "mass", "swap", "spl", "splr", "mrg", "xtr"}
Equal(op) == op \in {"swap", "spl", "splr", "mrg", "xtr"}         \* only between containers whose allocators are equal
Takes(op) == op \in {"mcon", "mcona", "mass"}

Pre(s, a) ==
  IF Handles(a.op) THEN (a.op = "drop") = (a.v \in DOMAIN s.hs) /\ (a.op = "hcp" => a.w \in DOMAIN s.hs)
  ELSE /\ IF Creates(a.op) THEN a.v \notin DOMAIN s.c ELSE a.v \in DOMAIN s.c
       /\ Pairs(a.op) => a.w \in DOMAIN s.c
       /\ a.op \in {"cass", "mass"} \cup {o \in {a.op} : Equal(o)} => s.c[a.v].t = s.c[a.w].t
       /\ Equal(a.op) => s.c[a.v].ar = s.c[a.w].ar
       /\ a.op \in {"spl", "splr", "mrg", "xtr"} => a.v # a.w
       /\ (a.op = "mrg" /\ Lists(s.c[a.v].t)) => Sorted(s.c[a.v].s) /\ Sorted(s.c[a.w].s)
       /\ a.h # 0 => a.h \in DOMAIN s.hs

\* the admissible outcomes [s, r]
Do(s, a) ==
  LET c == s.c
      me == IF a.v \in DOMAIN c THEN c[a.v] ELSE [t |-> a.t, s |-> <<>>, ar |-> 0]
      you == IF Pairs(a.op) THEN c[a.w] ELSE me
      x == me.s  y == you.s
      none == -1
      is(d) == { [s |-> [s EXCEPT !.c = d], r |-> none] }
      to(q) == is(Put(c, a.v, [me EXCEPT !.s = q]))
      ret(q, r) == { [s |-> [s EXCEPT !.c = Put(c, a.v, [me EXCEPT !.s = q])], r |-> r] }
      both(p, q) == is([c EXCEPT ![a.v] = [@ EXCEPT !.s = p], ![a.w] = [@ EXCEPT !.s = q]])
      ar == IF a.h # 0 THEN s.hs[a.h] ELSE FreshAr(s)
      b(n) == IF n THEN 1 ELSE 0
      after == IF a.v = a.w THEN y ELSE Any7
  IN CASE a.op = "hnd" -> { [s |-> [s EXCEPT !.hs = Put(@, a.v, FreshAr(s))], r |-> none] }
       [] a.op = "hcp" -> { [s |-> [s EXCEPT !.hs = Put(@, a.v, s.hs[a.w])], r |-> none] }
       [] a.op = "drop" -> { [s |-> [s EXCEPT !.hs = Del(@, a.v)], r |-> none] }
       [] a.op = "new" -> is(Put(c, a.v, [t |-> a.t, s |-> <<>>, ar |-> ar]))
       [] a.op = "newi" -> is(Put(c, a.v, [t |-> a.t, s |-> a.xs, ar |-> ar]))
       [] a.op = "newr" -> is(Put(c, a.v, [t |-> a.t, s |-> <<>>, ar |-> you.ar]))        \* rebound from another container's allocator
       [] a.op = "ccon" -> is(Put(c, a.v, you))
       [] a.op = "ccona" -> is(Put(c, a.v, [you EXCEPT !.ar = s.hs[a.h]]))
       [] a.op = "mcon" -> is(Put(Put(c, a.v, you), a.w, [you EXCEPT !.s = Any7]))
       [] a.op = "mcona" -> is(Put(Put(c, a.v, [you EXCEPT !.ar = s.hs[a.h]]), a.w, [you EXCEPT !.s = Any7]))
       [] a.op = "cass" -> to(y)                                                          \* each keeps its own allocator
       [] a.op = "mass" -> IF a.v = a.w THEN to(Any7) ELSE both(y, Any7)
       [] a.op = "swap" -> both(y, x)
       [] a.op = "del" -> is(Del(c, a.v))
       [] a.op = "clr" -> to(<<>>)
       [] a.op = "pb" -> to(Append(x, a.x))
       [] a.op = "pba" -> to(Append(x, x[a.j + 1]))
       [] a.op = "pf" -> to(<<a.x>> \o x)
       [] a.op = "popb" -> to(SubSeq(x, 1, Len(x) - 1))
       [] a.op = "popf" -> to(Tail(x))
       [] a.op = "asg" -> to(a.xs)
       [] a.op = "asgn" -> to(Fill(a.n, a.x))
       [] a.op = "rsz" -> to(IF a.n <= Len(x) THEN SubSeq(x, 1, a.n) ELSE x \o Fill(a.n - Len(x), a.x))
       [] a.op = "ins" -> to(InsAt(x, a.i, <<a.x>>))
       [] a.op = "insr" -> to(InsAt(x, a.i, a.xs))
       [] a.op = "insn" -> to(InsAt(x, a.i, Fill(a.n, a.x)))
       [] a.op = "emp" -> to(InsAt(x, a.i, <<x[a.j + 1]>>))
       [] a.op = "era" -> to(Cut(x, a.i, a.i + 1))
       [] a.op = "erar" -> to(Cut(x, a.i, a.j))
       [] a.op = "set" -> to([x EXCEPT ![a.i + 1] = a.x])
       [] a.op \in {"shr", "rsv"} -> to(x)
       [] a.op = "srt" -> to(Sort(x))
       [] a.op = "rev" -> to([i \in 1..Len(x) |-> x[Len(x) + 1 - i]])
       [] a.op = "unq" -> to(Unique(x))
       [] a.op = "rmv" -> to(LET Keep(z) == z # a.x IN SelectSeq(x, Keep))
       [] a.op = "spl" -> both(InsAt(x, a.i, y), <<>>)
       [] a.op = "splr" -> both(InsAt(x, a.i, SubSeq(y, a.j + 1, a.j + a.n)), Cut(y, a.j, a.j + a.n))
       [] a.op = "mrg" -> IF Keyed(me.t) THEN LET Dup(z) == Has(x, Key(z)) IN both(AddKeys(x, y), SelectSeq(y, Dup)) ELSE both(Sort(x \o y), <<>>)
       [] a.op = "sin" -> ret(AddKey(x, a.x), b(~Has(x, Key(a.x))))
       [] a.op = "asn" -> to(Sort(Append(NotKey(x, Key(a.x)), a.x)))
       [] a.op = "sir" -> to(AddKeys(x, a.xs))
       [] a.op \in {"ser", "xdr"} -> ret(NotKey(x, a.x), b(Has(x, a.x)))
       [] a.op = "sfi" -> ret(x, b(Has(x, a.x)))
       [] a.op = "xtr" -> both(AddKeys(x, OnlyKey(y, a.x)), NotKey(y, a.x))
       [] OTHER -> {}
=============================================================================
