------------------------------- MODULE Seqs -------------------------------
(* Containers of trivial elements as what a user may rely on: a vector is a sequence, an array a sequence
   of requested length, a buffer a sequence of fixed length with a rolling index.

   k        "vec", "arr" or "buf";    sz: the fixed length of a buffer
   c        container -> sequence of its elements (Anything: an element that was never written)
   An operation is a record [op, v, w, i, j, n, x, xs]: containers v and w, positions i and j (from 0),
   a number n, a value x and a sequence of values xs.  Do yields the admissible outcomes [c, r], where r
   is what the operation returns: a position, a value, or None. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Anything == -1000000
None == -1

Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Fill(n, x) == [i \in 1..n |-> x]
Ins(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Cut(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))
Size(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Fill(n - Len(s), Anything)

\* an index too large for the integers of TLC comes as four digits of 16 bits
Roll(d, n) == LET f(a, x) == (a * 65536 + x) % n IN f(f(f(d[1] % n, d[2]), d[3]), d[4])

Creates(op) == op \in {"new", "newn", "newv", "newi", "newr", "ccon", "mcon", "ccona", "mcona"}
Takes(op) == op \in {"mcon", "mcona", "mass"}
Pairs(op) == op \in {"ccon", "mcon", "ccona", "mcona", "cass", "mass", "pushw", "asgw"}

Pre(k, sz, c, a) ==
  /\ IF Creates(a.op) THEN a.v \notin DOMAIN c ELSE a.v \in DOMAIN c
  /\ Pairs(a.op) => a.w \in DOMAIN c
  /\ LET len == IF a.v \in DOMAIN c THEN Len(c[a.v]) ELSE 0 IN
     /\ a.op \in {"pusha", "pushb", "emba", "era"} => a.i < len
     /\ (a.op = "set" /\ k # "buf") => a.i < len
     /\ a.op \in {"emp", "empa", "erar"} => a.i <= len
     /\ a.op = "empa" => a.j < len
     /\ a.op = "erar" => a.i <= a.j /\ a.j <= len
     /\ a.op = "pop" => len > 0
     /\ a.op \in {"pushw", "asgw"} => a.v # a.w
     /\ k = "buf" => (a.op = "newi" => Len(a.xs) <= sz) /\ (a.op \in {"newr", "asg"} => Len(a.xs) = sz)

Do(k, sz, c, a) ==
  LET s == IF a.v \in DOMAIN c THEN c[a.v] ELSE <<>>
      o == IF Pairs(a.op) THEN c[a.w] ELSE <<>>
      at(n) == s[n + 1]
      to(t, r) == { [c |-> Put(c, a.v, t), r |-> r] }
      add(t) == to(s \o t, Len(s))
      from(t, gone) == { [c |-> IF k = "buf" \/ ~gone THEN Put(c, a.v, t) ELSE Put(Put(c, a.w, <<>>), a.v, t), r |-> None] }
      b == k = "buf"
  IN CASE a.op = "new" -> to(IF b THEN Fill(sz, Anything) ELSE <<>>, None)
       [] a.op = "newn" -> to(Fill(a.n, Anything), None)
       [] a.op = "newv" -> to(Fill(IF b THEN sz ELSE a.n, a.x), None)
       [] a.op = "newi" -> to(IF b THEN Size(a.xs, sz) ELSE a.xs, None)
       [] a.op = "newr" -> to(a.xs, None)
       [] a.op \in {"ccon", "ccona"} -> from(o, FALSE)
       [] a.op \in {"mcon", "mcona"} -> from(o, TRUE)
       [] a.op = "cass" -> from(o, FALSE)
       [] a.op = "mass" -> IF a.v # a.w THEN from(o, TRUE)
                           ELSE { [c |-> c, r |-> None] } \cup (IF b THEN {} ELSE to(<<>>, None))
       [] a.op = "del" -> { [c |-> Del(c, a.v), r |-> None] }
       [] a.op \in {"push", "pushm", "emb"} -> add(<<a.x>>)
       [] a.op \in {"pusha", "pushb", "emba"} -> add(<<at(a.i)>>)
       [] a.op = "pushr" -> add(a.xs)
       [] a.op = "pushw" -> add(o)
       [] a.op = "emp" -> to(Ins(s, a.i, a.x), a.i)
       [] a.op = "empa" -> to(Ins(s, a.i, at(a.j)), a.i)
       [] a.op = "era" -> to(Cut(s, a.i, a.i + 1), a.i)
       [] a.op = "erar" -> to(Cut(s, a.i, a.j), a.i)
       [] a.op = "pop" -> to(SubSeq(s, 1, Len(s) - 1), s[Len(s)])
       [] a.op = "rsz" -> to(Size(s, a.n), None)
       [] a.op = "rsv" -> to(s, None)
       [] a.op = "clr" -> to(<<>>, None)
       [] a.op = "set" -> to([s EXCEPT ![(IF b THEN a.i % sz ELSE a.i) + 1] = a.x], None)
       [] a.op = "setd" -> to([s EXCEPT ![Roll(a.xs, sz) + 1] = a.x], None)
       [] a.op = "getd" -> { [c |-> c, r |-> s[Roll(a.xs, sz) + 1]] }
       [] a.op = "asg" -> to(a.xs, None)
       [] a.op = "asgw" -> to(o, None)
       [] OTHER -> {}

\* an element that was never written may have any value
Agrees(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = Anything \/ s[i] = t[i]
AgreesV(x, y) == x = Anything \/ x = y

\* operations that leave the elements where they are as long as they fit
Stays(op) == op \in {"push", "pushm", "emb", "pusha", "pushb", "emba", "pushr", "pushw", "emp", "empa", "era", "erar", "pop", "rsz", "rsv", "clr", "set"}
=============================================================================
