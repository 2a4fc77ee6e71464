--------------------------------- MODULE Hb ---------------------------------
(* The happens-before order of C++ executions, by vector clocks, and data races.

   h = [C, A, F, L, W, R, N, M, ok]
     C: what each thread knows (thread -> thread -> clock); A: what it would know after an acquire fence;
     F: what it knew at its last release fence; L: synchronisation object -> what its readers learn;
     W, R, N, M: location -> the last writes, reads, atomic writes and atomic reads of every thread
     ok: no data race so far
   Memory orders are those of the compiler: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 both, 5 sequentially consistent *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero(T) == [t \in T |-> 0]
HbStart(T) == [C |-> [t \in T |-> [Zero(T) EXCEPT ![t] = 1]], A |-> [t \in T |-> Zero(T)], F |-> [t \in T |-> Zero(T)],
               L |-> <<>>, W |-> <<>>, R |-> <<>>, N |-> <<>>, M |-> <<>>, ok |-> TRUE]
Larger(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [t \in DOMAIN a |-> Larger(a[t], b[t])]
Below(a, b) == \A t \in DOMAIN a : a[t] <= b[t]
At(f, x, T) == IF x \in DOMAIN f THEN f[x] ELSE Zero(T)
Set(f, x, v) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = v] ELSE f @@ (x :> v)
Acq(mo) == mo \in {1, 2, 4, 5}
Rel(mo) == mo \in {3, 4, 5}
Tick(h, t) == [h EXCEPT !.C[t][t] = @ + 1]

\* thread t accesses the locations X in one of the four ways
Mark(f, X, t, h) == LET T == DOMAIN h.C IN [x \in DOMAIN f \cup X |-> IF x \in X THEN [At(f, x, T) EXCEPT ![t] = h.C[t][t]] ELSE f[x]]
Clear(f, X, t, h) == \A x \in X \cap DOMAIN f : Below(f[x], h.C[t])   \* all of f's accesses happen before what t does now
Reads(h, t, X)   == IF X = {} THEN h ELSE [h EXCEPT !.R = Mark(@, X, t, h), !.ok = @ /\ Clear(h.W, X, t, h) /\ Clear(h.N, X, t, h)]
Writes(h, t, X)  == IF X = {} THEN h ELSE [h EXCEPT !.W = Mark(@, X, t, h), !.ok = @ /\ Clear(h.W, X, t, h) /\ Clear(h.R, X, t, h) /\ Clear(h.N, X, t, h) /\ Clear(h.M, X, t, h)]
AWrites(h, t, X) == [h EXCEPT !.N = Mark(@, X, t, h), !.ok = @ /\ Clear(h.W, X, t, h) /\ Clear(h.R, X, t, h)]
AReads(h, t, X)  == [h EXCEPT !.M = Mark(@, X, t, h), !.ok = @ /\ Clear(h.W, X, t, h)]

\* synchronisation
Learn(h, t, v, mo) == [h EXCEPT !.A[t] = Join(@, v), !.C[t] = IF Acq(mo) THEN Join(@, v) ELSE @]
Offer(h, t, mo) == IF Rel(mo) THEN h.C[t] ELSE h.F[t]
Load(h, t, m, mo)  == Learn(AReads(h, t, {m}), t, At(h.L, m, DOMAIN h.C), mo)
Store(h, t, m, mo) == LET g == AWrites(h, t, {m}) IN Tick([g EXCEPT !.L = Set(@, m, Offer(g, t, mo))], t)
Rmw(h, t, m, mo)   == LET o == At(h.L, m, DOMAIN h.C)  g == Learn(AWrites(h, t, {m}), t, o, mo)
                      IN Tick([g EXCEPT !.L = Set(@, m, Join(o, Offer(g, t, mo)))], t)   \* continues the release sequence
Fence(h, t, mo)    == LET g == IF Acq(mo) THEN [h EXCEPT !.C[t] = Join(@, h.A[t])] ELSE h
                      IN IF Rel(mo) THEN Tick([g EXCEPT !.F[t] = g.C[t]], t) ELSE g
Lock(h, t, m)      == Learn(AWrites(h, t, {m}), t, At(h.L, m, DOMAIN h.C), 2)
Unlock(h, t, m)    == LET g == AWrites(h, t, {m}) IN Tick([g EXCEPT !.L = Set(@, m, Join(At(h.L, m, DOMAIN h.C), g.C[t]))], t)
Spawn(h, t, u)     == Tick([h EXCEPT !.C[u] = Join(@, h.C[t])], t)
JoinTh(h, t, u)    == [h EXCEPT !.C[t] = Join(@, h.C[u])]
=============================================================================
