------------------------------- MODULE Heap -------------------------------
(* A binary heap as a priority queue over the multiset of what was inserted.

   h   heap -> [b, k, m]: its elements in any order, and its comparison: kind k with parameter m
   Elements are integers: key * 1000 + tag.  Many elements may be equivalent to the comparison. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Key(x) == x \div 1000
\* a strict weak ordering: x comes before y
Before(k, m, x, y) ==
  CASE k = 0 -> Key(x) < Key(y)
    [] k = 1 -> Key(x) > Key(y)
    [] k = 2 -> Key(x) % m < Key(y) % m
    [] k = 3 -> Key(x) \div 10 < Key(y) \div 10
    [] k = 4 -> x < y
    [] k = 5 -> x > y
    [] k = 6 -> FALSE                       \* all are equivalent

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Within(s, x) == \E i \in 1..Len(s) : s[i] = x
Without(s, x) == LET i == CHOOSE j \in 1..Len(s) : s[j] = x IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* x may come out next
First(q, x) == Within(q.b, x) /\ \A i \in 1..Len(q.b) : ~Before(q.k, q.m, q.b[i], x)

Creates(op) == op \in {"new", "newc", "newi", "ccon", "mcon", "ccona", "mcona"}
Pairs(op) == op \in {"ccon", "mcon", "ccona", "mcona", "cass", "mass"}
Takes(op) == op \in {"mcon", "mcona", "mass"}

Pre(h, a) == /\ IF Creates(a.op) THEN a.v \notin DOMAIN h ELSE a.v \in DOMAIN h
             /\ Pairs(a.op) => a.w \in DOMAIN h
             /\ a.op \in {"pop", "peek"} => h[a.v].b # <<>>
             /\ a.op = "insa" => a.i < Len(h[a.v].b)

\* the admissible outcomes [h, r]: r a value that was returned, or -1
Do(h, a) ==
  LET q == IF a.v \in DOMAIN h THEN h[a.v] ELSE [b |-> <<>>, k |-> a.k, m |-> a.m]
      o == IF Pairs(a.op) THEN h[a.w] ELSE q
      none == -1
      to(s) == { [h |-> Put(h, a.v, [q EXCEPT !.b = s]), r |-> none] }
  IN CASE a.op \in {"new", "newc"} -> to(<<>>)
       [] a.op = "newi" -> to(a.xs)
       [] a.op \in {"ccon", "ccona"} -> { [h |-> Put(h, a.v, o), r |-> none] }
       [] a.op \in {"mcon", "mcona"} -> { [h |-> Put(Put(h, a.w, [o EXCEPT !.b = <<>>]), a.v, o), r |-> none] }
       [] a.op = "cass" -> { [h |-> Put(h, a.v, o), r |-> none] }
       [] a.op = "mass" -> IF a.v = a.w THEN { [h |-> h, r |-> none] } \cup to(<<>>)
                           ELSE { [h |-> Put(Put(h, a.w, [o EXCEPT !.b = <<>>]), a.v, o), r |-> none] }
       [] a.op = "del" -> { [h |-> Del(h, a.v), r |-> none] }
       [] a.op = "ins" -> to(Append(q.b, a.x))
       [] a.op = "insa" -> to(Append(q.b, q.b[a.i + 1]))
       [] a.op = "pop" -> { [h |-> Put(h, a.v, [q EXCEPT !.b = Without(@, x)]), r |-> x] : x \in {y \in {q.b[i] : i \in 1..Len(q.b)} : First(q, y)} }
       [] a.op = "peek" -> { [h |-> h, r |-> x] : x \in {y \in {q.b[i] : i \in 1..Len(q.b)} : First(q, y)} }
       [] a.op \in {"find", "fall"} -> { [h |-> h, r |-> none] }
       [] a.op = "clr" -> to(<<>>)
       [] a.op = "rsv" -> to(q.b)
       [] OTHER -> {}
=============================================================================
