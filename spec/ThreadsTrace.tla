---------------------------- MODULE ThreadsTrace ----------------------------
(* Validates executions recorded from real allocators under controlled schedules: every operation, lock, atomic
   operation, fence, memory access, and what happens inside of the wrapped allocator. *)
EXTENDS Hb, Threads, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Cfgs == JsonDeserialize(IOEnv.CFGS)      \* [max, full]
VARIABLES tid, l, st                     \* st = [h, s, fr]: happens-before, meaning, freed objects
vars == <<tid, l, st>>
Cfg == Cfgs[Traces[tid].cfg]
T == 0..7
ToSet(q) == {q[i] : i \in 1..Len(q)}

With(h, p) == IF p.ok THEN {[h |-> h, s |-> p.s, fr |-> st.fr]} ELSE {}
Hbs(h) == {[h |-> h, s |-> st.s, fr |-> st.fr]}
Step(e) ==
  IF e.e \in {"crash", "dead", "uaf"} THEN {}
  ELSE LET t == e.t  s == st.s
           h == Writes(Reads(st.h, t, ToSet(e.rd)), t, ToSet(e.wr))
       IN IF ~h.ok THEN {}
          ELSE LET R == CASE e.e \in {"acc", "over", "tl"} -> Hbs(h)
                 [] e.e = "beg" -> With(h, Beg(s, t, [o |-> e.o, h |-> e.h, k |-> e.k, s |-> e.s, n |-> e.n, old |-> {}]))
                 [] e.e = "end" -> With(h, End(s, t, e.r, e.b, e.ov, Cfg))
                 [] e.e = "in" -> With(h, Enter(s, t, e.al))
                 [] e.e = "out" -> With(h, Leave(s, t, e.al))
                 [] e.e = "c" -> With(h, Born(s, t, e.al))
                 [] e.e = "x" -> With(h, Gone(s, t, e.al))
                 [] e.e = "ld" -> Hbs(Load(h, t, e.m, e.mo))
                 [] e.e = "st" -> Hbs(Store(h, t, e.m, e.mo))
                 [] e.e = "rmw" -> Hbs(Rmw(h, t, e.m, e.mo))
                 [] e.e = "fen" -> Hbs(Fence(h, t, e.mo))
                 [] e.e \in {"lk", "rl"} -> Hbs(Lock(h, t, e.m))
                 [] e.e \in {"ul", "ru"} -> Hbs(Unlock(h, t, e.m))
                 [] e.e = "spn" -> Hbs(Spawn(h, t, e.u))
                 [] e.e = "jn" -> Hbs(JoinTh(h, t, e.u))
                 [] e.e = "fre" -> IF e.ok = 1 /\ e.ob \notin st.fr THEN {[h |-> Writes(h, t, ToSet(e.ls)), s |-> s, fr |-> st.fr \cup {e.ob}]} ELSE {}
                 [] e.e = "fin" -> IF e.live = 0 /\ DOMAIN s.b = {} /\ s.in = {} /\ \A al \in DOMAIN s.ar : s.ar[al] = "gone" THEN Hbs(h) ELSE {}
                 [] OTHER -> {}
               IN {x \in R : x.h.ok /\ Quiet(x.s)}

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [h |-> HbStart(T), s |-> ThStart(T), fr |-> {}]
Next == /\ l \in 1..Len(Traces[tid].ev)
        /\ LET S == Step(Traces[tid].ev[l])
           IN IF S = {} THEN PrintT(<<"REJECT", tid, l>>) /\ st' = st /\ l' = -1
              ELSE st' = (CHOOSE s \in S : TRUE) /\ l' = l + 1 /\ (l = Len(Traces[tid].ev) => PrintT(<<"ACCEPT", tid>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
