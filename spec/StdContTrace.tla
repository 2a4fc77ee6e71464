---------------------------- MODULE StdContTrace ----------------------------
(* Validates histories recorded from real standard containers on typed, shared allocators: their elements, the
   lifetimes of these, the memory of the providers underneath and the providers' own lifetimes. *)
EXTENDS StdCont, Life, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Cfgs == JsonDeserialize(IOEnv.CFGS)      \* [np, mem]: providers of one arena (0: varies)
VARIABLES tid, l, st                     \* st = [s, f, m, pr]: containers, objects, blocks, providers
vars == <<tid, l, st>>
Cfg == Cfgs[Traces[tid].cfg]

\* requests that reached providers
RECURSIVE Ask(_, _, _, _)
Ask(m, pr, q, j) ==
  IF j > Len(q) THEN {[m |-> m, pr |-> pr]}
  ELSE LET e == q[j] IN
       CASE e.k = "c" -> IF e.al \in pr THEN {} ELSE Ask(m, pr \cup {e.al}, q, j + 1)
         [] e.k = "x" -> IF e.al \notin pr \/ \E b \in DOMAIN m : m[b].al = e.al THEN {} ELSE Ask(m, pr \ {e.al}, q, j + 1)
         [] e.k = "a" -> IF e.al \notin pr \/ e.b <= 0 \/ e.b \in DOMAIN m THEN {} ELSE Ask(Put(m, e.b, [n |-> e.n, al |-> e.al]), pr, q, j + 1)
         [] OTHER -> IF e.b = 0 /\ e.n = 0 THEN Ask(m, pr, q, j + 1)
                     ELSE IF e.b \in DOMAIN m /\ m[e.b].n = e.n /\ m[e.b].al = e.al /\ e.al \in pr /\ e.lv = 0 THEN Ask(Del(m, e.b), pr, q, j + 1) ELSE {}

Obs(e, v) == e.obs[CHOOSE i \in 1..Len(e.obs) : e.obs[i].v = v]
\* of equal allocators the first one stands for all: handles before containers
Rep(s, v) == LET H == {h \in DOMAIN s.hs : s.hs[h] = s.c[v].ar}  V == {u \in DOMAIN s.c : s.c[u].ar = s.c[v].ar}
             IN IF H # {} THEN -(CHOOSE h \in H : \A k \in H : h <= k) ELSE CHOOSE u \in V : \A k \in V : u <= k
Looks(s, e) ==
  /\ DOMAIN s.c = {e.obs[i].v : i \in 1..Len(e.obs)}
  /\ \A v \in DOMAIN s.c : LET o == Obs(e, v) IN
       /\ s.c[v].s = Any7 \/ s.c[v].s = o.c
       /\ o.n = Len(o.c) /\ o.q = Rep(s, v)
Learn(s, e) == [s EXCEPT !.c = [v \in DOMAIN @ |-> [@[v] EXCEPT !.s = Obs(e, v).c]]]
\* an arena lives as long as something uses it
Alive(s, pr) == IF Used(s) = {} THEN pr = {} ELSE Cfg.np = 0 \/ Cardinality(pr) = Cfg.np * Cardinality(Used(s))

Step(e) ==
  IF e.e = "crash" THEN {}
  ELSE IF e.e = "end" THEN IF e.live # 0 \/ e.rep # 0 \/ DOMAIN st.f # {} \/ DOMAIN st.m # {} \/ e.mem # <<>> \/ st.pr # {} THEN {} ELSE {st}
  ELSE LET a == [op |-> e.e, v |-> e.v, t |-> e.t, w |-> e.w, i |-> e.i, j |-> e.j, n |-> e.n, x |-> e.x, xs |-> e.xs, h |-> e.h] IN
       IF ~Pre(st.s, a) \/ e.rep # 0 THEN {}
       ELSE { [s |-> Learn(p.s, e), f |-> f, m |-> k.m, pr |-> k.pr] :
                p \in {o \in Do(st.s, a) : o.r \in {-1, e.r} /\ Looks(o.s, e)},
                f \in LifeDo(st.f, e.el, 1),
                k \in {z \in Ask(st.m, st.pr, e.mem, 1) : (\E o \in Do(st.s, a) : Alive(o.s, z.pr))} }

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [s |-> [c |-> <<>>, hs |-> <<>>], f |-> <<>>, m |-> <<>>, pr |-> {}]
Next == /\ l \in 1..Len(Traces[tid].ev)
        /\ LET S == Step(Traces[tid].ev[l])
           IN IF S = {} THEN PrintT(<<"REJECT", tid, l>>) /\ st' = st /\ l' = -1
              ELSE st' = (CHOOSE s \in S : TRUE) /\ l' = l + 1 /\ (l = Len(Traces[tid].ev) => PrintT(<<"ACCEPT", tid>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
