--------------------------- MODULE ComposeTrace ---------------------------
(* Validates histories recorded from the real allocators against Compose. *)
EXTENDS Compose, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Trees == JsonDeserialize(IOEnv.TREES)

VARIABLES tid, l, S
vars == <<tid, l, S>>

\* the world explains all calls that the leaves received, all failures of the system, and all that was reported
MatchRep(r, e, st) == /\ r.k = e.k /\ r.node = e.node /\ r.n = e.n /\ r.b = e.b /\ r.a = e.a
                      /\ r.k = "cor" => IF r.p = <<>> THEN e.x = r.x.b /\ e.of = r.x.of ELSE e.p = Plus(r.p, r.x.of)
RECURSIVE Explains(_, _, _)
Explains(q, e, st) == IF q = <<>> THEN e = <<>>
                      ELSE \E j \in 1..Len(e) : /\ MatchRep(q[1], e[j], st)
                                                /\ Explains(Tail(q), SubSeq(e, 1, j-1) \o SubSeq(e, j+1, Len(e)), st)
Clean(S1, e) == { [st EXCEPT !.w.rep = <<>>] : st \in {x \in S1 : x.w.tape = <<>> /\ x.w.mf = 0 /\ Len(x.w.rep) = Len(e.rep) /\ Explains(x.w.rep, e.rep, x)} }

Objects(st, e, k) == IF "ob" \notin DOMAIN e THEN TRUE
  ELSE /\ Len(e.ob) = 1 /\ e.ob[1].k = k /\ e.ob[1].x = st.user[e.s].b /\ e.ob[1].y = st.user[e.s].of
       /\ (k = "C" => e.ob[1].a = e.a /\ e.ob[1].b = e.b)
Construct(st, e, k) == { WithState(st, e.v, o.s, o.w) : o \in Con(st.tree, StateOf(st, e.v), [b |-> st.user[e.s].b, of |-> st.user[e.s].of], k, st.w) }

Step(st0, e) ==
  IF e.e = "crash" THEN {} ELSE
  LET st == [st0 EXCEPT !.w.tape = IF "c" \in DOMAIN e THEN e.c ELSE <<>>, !.w.mf = e.mf] IN
  IF e.ok # TRUE THEN {}
  ELSE CASE e.e = "new" -> New(st, e.v)
    [] e.e = "del" -> DelVar(st, e.v)
    [] e.e = "ccon" -> CopyVar(st, e.v, e.w)
    [] e.e = "mcon" -> MoveVar(st, e.v, e.w)
    [] e.e = "cass" -> CopyAssign(st, e.v, e.w)
    [] e.e = "mass" -> MoveAssignVar(st, e.v, e.w)
    [] e.e = "alloc" ->
         LET O == { p \in Request(st, e.v, e.s, e.n, e.u) : p.ok = e.r /\ (p.ok /\ ~e.u => e.n <= st.rep) }
         IN IF ~e.r THEN { o.st : o \in O }
            ELSE IF "p" \in DOMAIN e THEN UNION { Bind(o, e.p) : o \in O }
            ELSE { o.st : o \in {p \in O : p.x.b = e.b /\ p.x.of = e.of} }
    [] e.e = "free" -> Return(st, e.v, e.s)
    [] e.e = "leak" -> Forget(st, e.s)
    [] e.e = "smash" -> Smash(st, e.s, e.at, e.good)
    [] e.e = "owns" -> IF e.r = (IF e.k = "slot" THEN Owns(st, e.v, e.s) ELSE FALSE) THEN {st} ELSE {}
    [] e.e = "max" -> IF e.n >= st.met /\ (Plain(st.tree) => e.n = st.tree.max) THEN { [st EXCEPT !.rep = IF e.n < @ THEN e.n ELSE @, !.w = w] : w \in AskMax(st.tree, StateOf(st, e.v), st.w) } ELSE {}
    [] e.e = "eq" -> IF e.q # e.nq /\ e.q2 = e.q /\ e.q3 = e.q /\ e.nq2 = e.nq /\ e.nq3 = e.nq /\ EqualOK(st, e.v, e.w, e.q) THEN {st} ELSE {}
    [] e.e = "setg" -> SetGlobal(st, e.v)
    [] e.e = "con" -> IF Objects(st, e, "C") THEN Construct(st, e, "K") ELSE {}
    [] e.e = "des" -> IF Objects(st, e, "D") THEN Construct(st, e, "k") ELSE {}
    [] e.e = "end" -> IF e.badfree # 0 THEN {}
                      ELSE { [st EXCEPT !.w = [w EXCEPT !.left = <<>>]]
                             : w \in { x \in DestroyAll(st.w.left, st.w) : e.leak = Cardinality({b \in DOMAIN x.out : x.out[b].i = 0}) + (IF Persists(st) THEN Kept(st.tree, st.heap[1].s) ELSE 0) } }
    [] OTHER -> {}

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ S = Init0(Trees[Traces[tid].cfg])

\* the properties proper, on what the implementation did
Good(st) == Bumped(st) /\ Bases(st) /\ Disjoint(st) /\ NotHeld(st) /\ Conserved(st) /\ Fits(st) /\ Cascades(st) /\ GoneIsReturned(st)

Next == /\ l \in 1..Len(Traces[tid].ev)
        /\ LET S1 == {st \in Clean(UNION { Step(st, Traces[tid].ev[l]) : st \in S }, Traces[tid].ev[l]) : Good(st)}
           IN IF S1 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ S' = S /\ l' = -1
              ELSE S' = S1 /\ l' = l + 1 /\ (l = Len(Traces[tid].ev) => PrintT(<<"ACCEPT", tid>>))
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
View == <<tid, l>>

=============================================================================
