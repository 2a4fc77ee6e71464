------------------------------ MODULE PackedMC ------------------------------
(* Explores packed pointers of a few bits.  A design that keeps both in one word, by masks, runs along with
   Packed and must agree with it. *)
EXTENDS Packed, Json, IOUtils, TLCExt

Pars == JsonDeserialize(IOEnv.PARAMS)  \* sequence of [cfg, bits, free, len, vars, cap, depth]
VARIABLES q, w, act, d, k
vars == <<q, w, act, d, k>>
Par == Pars[k]
C == [bits |-> Par.bits, free |-> Par.free, lb |-> 1, len |-> Par.len]
Words == [1..Par.len -> 0..1]
\* words: the integer lies below, the pointer above
And(x, y) == [i \in 1..Par.len |-> x[i] * y[i]]
Or(x, y) == [i \in 1..Par.len |-> IF x[i] + y[i] > 0 THEN 1 ELSE 0]
IntMask == [i \in 1..Par.len |-> IF i <= Par.bits THEN 1 ELSE 0]
PtrMask == [i \in 1..Par.len |-> IF i <= Par.free THEN 0 ELSE 1]
Conc(x, a) ==
  CASE a.op = "new" -> Put(x, a.v, Zero(Par.len))
    [] a.op = "newp" -> Put(x, a.v, Or(And(a.p, PtrMask), And(a.n, IntMask)))
    [] a.op = "setp" -> Put(x, a.v, Or(And(a.p, PtrMask), And(x[a.v], IntMask)))
    [] a.op = "seti" -> Put(x, a.v, Or(And(x[a.v], PtrMask), And(a.n, IntMask)))
    [] a.op \in {"ccon", "mcon", "cass", "mass"} -> Put(x, a.v, x[a.w])
    [] a.op = "swap" -> [x EXCEPT ![a.v] = x[a.w], ![a.w] = x[a.v]]
    [] a.op = "del" -> Del(x, a.v)
A(op, v, u, p, n) == [op |-> op, v |-> v, w |-> u, p |-> p, n |-> n]
Z == Zero(Par.len)
P == {x \in Words : Aligned(x, Par.free, 1)}
Acts ==
  LET D == DOMAIN q  V == {v \in 1..Par.vars : v \notin D /\ \A u \in 1..v-1 : u \in D} IN
  { A("new", v, 0, Z, Z) : v \in V } \cup { A("del", v, 0, Z, Z) : v \in D }
  \cup { A("newp", v, 0, p, n) : v \in V, p \in P, n \in Words }
  \cup { A("setp", v, 0, p, Z) : v \in D, p \in P } \cup { A("seti", v, 0, Z, n) : v \in D, n \in Words }
  \cup { A(o, v, u, Z, Z) : o \in {"ccon", "mcon"}, v \in V, u \in D } \cup { A(o, v, u, Z, Z) : o \in {"cass", "mass", "swap"}, v \in D, u \in D }
Init == /\ k \in 1..Len(Pars) /\ q = <<>> /\ w = <<>> /\ act = A("init", 0, 0, <<>>, <<>>) /\ d = 0 /\ TLCSet(k, 0)
Next == /\ d < Par.depth /\ TLCGet(k) < Par.cap /\ TLCSet(k, TLCGet(k) + 1) /\ d' = d + 1 /\ k' = k
        /\ \E a \in Acts : Pre(C, q, a) /\ act' = a /\ q' = Do(C, q, a) /\ w' = Conc(w, a)
Spec == Init /\ [][Next]_vars
View == <<k, q, w>>
Edge == PrintT(<<"E", k, TLCFP(w), TLCFP(w'), act'.op, act'.v, act'.w, act'.p, act'.n>>)

Agree == DOMAIN q = DOMAIN w /\ \A v \in DOMAIN q : q[v].p = And(w[v], PtrMask) /\ q[v].n = And(w[v], IntMask)
Fits == \A v \in DOMAIN q : Aligned(q[v].p, Par.free, 1) /\ Cut(q[v].n, Par.bits, 1) = q[v].n
=============================================================================
