------------------------------- MODULE Packed -------------------------------
(* Packed pointers: a pointer and an integer of a number of bits.  Numbers are sequences of digits to the base
   2^lb, the lowest first, so that they may be as wide as pointers are.

   q   packed pointer -> [p, n] *)
EXTENDS Integers, Sequences, TLC

Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* the low bits of x
Cut(x, bits, lb) == [i \in 1..Len(x) |-> IF bits >= lb * i THEN x[i] ELSE IF bits <= lb * (i - 1) THEN 0 ELSE x[i] % (2 ^ (bits - lb * (i - 1)))]
Zero(len) == [i \in 1..len |-> 0]
Aligned(x, free, lb) == Cut(x, free, lb) = Zero(Len(x))

Creates(op) == op \in {"new", "newp", "ccon", "mcon"}
Pairs(op) == op \in {"ccon", "mcon", "cass", "mass", "swap"}
\* c: [bits, free, lb, len]: bits of the integer, bits left free by the alignment, width and number of digits
Pre(c, q, a) == /\ IF Creates(a.op) THEN a.v \notin DOMAIN q ELSE a.v \in DOMAIN q
                /\ Pairs(a.op) => a.w \in DOMAIN q
                /\ a.op \in {"newp", "setp"} => Aligned(a.p, c.free, c.lb)
Do(c, q, a) ==
  CASE a.op = "new" -> Put(q, a.v, [p |-> Zero(c.len), n |-> Zero(c.len)])
    [] a.op = "newp" -> Put(q, a.v, [p |-> a.p, n |-> Cut(a.n, c.bits, c.lb)])
    [] a.op = "setp" -> Put(q, a.v, [q[a.v] EXCEPT !.p = a.p])
    [] a.op = "seti" -> Put(q, a.v, [q[a.v] EXCEPT !.n = Cut(a.n, c.bits, c.lb)])
    [] a.op \in {"ccon", "mcon", "cass", "mass"} -> Put(q, a.v, q[a.w])
    [] a.op = "swap" -> [q EXCEPT ![a.v] = q[a.w], ![a.w] = q[a.v]]
    [] a.op = "del" -> Del(q, a.v)
=============================================================================
