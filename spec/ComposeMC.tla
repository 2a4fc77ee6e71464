----------------------------- MODULE ComposeMC -----------------------------
(* Explores every history of a composition within small bounds, with leaves free to meet or refuse each
   request, checks what must hold in every state, and prints the transitions for replay on the real code. *)
EXTENDS Compose, Json, IOUtils, TLCExt

Trees == JsonDeserialize(IOEnv.TREES)
Pars == JsonDeserialize(IOEnv.PARAMS)   \* sequence of [cfg, sizes, vars, slots, ops, depth, blocks, inst]

VARIABLES st, act, d, k
vars == <<st, act, d, k>>
Par == Pars[k]
Sizes == {Par.sizes[i] : i \in 1..Len(Par.sizes)}
Ops == {Par.ops[i] : i \in 1..Len(Par.ops)}
NVars == Par.vars
NSlots == Par.slots

Fresh(s) == [s EXCEPT !.lost = @ \cap DOMAIN s.w.out, !.w.gen = TRUE, !.w.bits = <<>>, !.w.rep = <<>>, !.rep = Huge, !.met = -1]
A(op, v, u, s, n, bits, ok) == [op |-> op, v |-> v, u |-> u, s |-> s, n |-> n, bits |-> bits, ok |-> ok]

Wgen == [World0 EXCEPT !.gen = TRUE, !.mi = Par.inst, !.mb = Par.blocks]
Init == /\ k \in 1..Len(Pars)
        /\ LET t == Trees[Par.cfg]
               none == [tree |-> t, vars |-> <<>>, heap |-> <<>>, user |-> <<>>, lost |-> {}, w |-> Wgen, rep |-> Huge, met |-> -1]
           IN st \in IF Root(t) # "gl" THEN {none} ELSE { [none EXCEPT !.heap = Put(<<>>, 1, [cnt |-> 0, s |-> o.s]), !.w = o.w] : o \in Create(t, Wgen) }
        /\ act = A("init", 0, 0, 0, 0, <<>>, TRUE)
        /\ d = 0
        /\ TLCSet(k, 0)

To(S, a) == \E s \in S : st' = Fresh(s) /\ act' = [a EXCEPT !.bits = s.w.bits]

\* blocks only reachable through variable v
Reach(v, x) == Usable(st, v) /\ Contains(st.tree, StateOf(st, v), InstOf(st.user[x], st.w), st.w)
Free1(v, others) == \A z \in DOMAIN st.user : Reach(v, z) => \E x \in others : Reach(x, z)
Dom == DOMAIN st.vars

Step ==
  \/ \E v \in 1..NVars : v \notin Dom /\ (\A x \in 1..v-1 : x \in Dom) /\ To(New(st, v), A("N", v, 0, 0, 0, <<>>, TRUE))
  \/ "X" \in Ops /\ \E v \in Dom : (Persists(st) \/ Free1(v, Dom \ {v})) /\ To(DelVar(st, v), A("X", v, 0, 0, 0, <<>>, TRUE))
  \/ "C" \in Ops /\ \E v \in 1..NVars \ Dom, u \in Dom : To(CopyVar(st, v, u), A("C", v, u, 0, 0, <<>>, TRUE))
  \/ "M" \in Ops /\ \E v \in 1..NVars \ Dom, u \in Dom : To(MoveVar(st, v, u), A("M", v, u, 0, 0, <<>>, TRUE))
  \/ "c" \in Ops /\ \E v \in Dom, u \in Dom : Free1(v, Dom \ {v}) /\ To(CopyAssign(st, v, u), A("c", v, u, 0, 0, <<>>, TRUE))
  \/ "m" \in Ops /\ \E v \in Dom, u \in Dom : (v = u => Root(st.tree) # "val") /\ Free1(v, IF Root(st.tree) = "val" THEN Dom \ {v, u} ELSE Dom \ {v})
                      /\ To(MoveAssignVar(st, v, u), A("m", v, u, 0, 0, <<>>, TRUE))
  \/ \E v \in Dom, s \in 1..NSlots, n \in Sizes, u \in {FALSE, TRUE} :
        /\ s \notin DOMAIN st.user /\ (\A x \in 1..s-1 : x \in DOMAIN st.user)
        /\ u => "A" \in Ops
        /\ \E o \in Request(st, v, s, n, u) : st' = Fresh(o.st) /\ act' = A(IF u THEN "A" ELSE "a", v, 0, s, n, o.st.w.bits, o.ok)
  \/ \E v \in Dom, s \in DOMAIN st.user : ~st.user[s].o /\ ("C" \in Ops \/ Root(st.tree) # "val" \/ st.user[s].v = v) /\ To(Return(st, v, s), A("D", v, 0, s, 0, <<>>, TRUE))
  \/ "w" \in Ops /\ \E s \in DOMAIN st.user, i \in 1..Len(Par.at), good \in {FALSE, TRUE} :
        To(Smash(st, s, Par.at[i], good), A("w", IF good THEN 0 ELSE 90, 0, s, Par.at[i], <<>>, TRUE))
  \/ "L" \in Ops /\ \E s \in DOMAIN st.user : To(Forget(st, s), A("L", 0, 0, s, 0, <<>>, TRUE))
  \/ "E" \in Ops /\ \E v \in Dom, s \in DOMAIN st.user :   \* through any allocator that has to be reported equal
        /\ ~st.user[s].o /\ st.user[s].v # v /\ st.user[s].v \in Dom /\ st.vars[v].m = "s" /\ st.vars[st.user[s].v].m = "s"
        /\ MustEqual(st.tree, st.vars[v].r, st.vars[st.user[s].v].r) /\ To(Return(st, v, s), A("E", v, 0, s, 0, <<>>, TRUE))
  \/ "k" \in Ops /\ \E s \in DOMAIN st.user :               \* objects made and destroyed by the allocator or by its user
        LET u == st.user[s]  x == [b |-> u.b, of |-> u.of]
            flip(z) == [z EXCEPT !.user = [@ EXCEPT ![s].o = ~@]]
            by(k1) == { flip(WithState(st, u.v, o.s, o.w)) : o \in Con(st.tree, StateOf(st, u.v), x, k1, st.w) }
        IN /\ ~u.u /\ Usable(st, u.v) /\ u.n >= Par.obj
           /\ IF u.o THEN To(by("k"), A("K", 0, 0, s, 0, <<>>, TRUE)) \/ To({flip(st)}, A("J", 0, 0, s, 0, <<>>, TRUE))
              ELSE To(by("K"), A("k", u.v, 0, s, 0, <<>>, TRUE)) \/ To({flip(st)}, A("U", 0, 0, s, 0, <<>>, TRUE))
  \/ "S" \in Ops /\ \E v \in Dom : DOMAIN st.user = {} /\ To(SetGlobal(st, v), A("S", v, 0, 0, 0, <<>>, TRUE))

\* at most Par.cap states of each configuration are expanded, nearest first
Next == d < Par.depth /\ TLCGet(k) < Par.cap /\ TLCSet(k, TLCGet(k) + 1) /\ Step /\ d' = d + 1 /\ k' = k
Spec == Init /\ [][Next]_vars
View == <<k, st>>

\* edges for replay
Edge == PrintT(<<"E", k, TLCFP(st), TLCFP(st'), act'.op, act'.v, act'.u, act'.s, act'.n, act'.bits>>)

Inv == Bumped(st) /\ Disjoint(st) /\ NotHeld(st) /\ Conserved(st) /\ Fits(st) /\ Cascades(st) /\ GoneIsReturned(st)
=============================================================================
