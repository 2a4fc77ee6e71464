----------------------------- MODULE SeqsTrace -----------------------------
(* Validates histories recorded from the real vectors, arrays and buffers against Seqs and Mem.
   FOCUS: "content" judges elements and capacities, "memory" the memory obtained and returned. *)
EXTENDS Seqs, Mem, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Cfgs == JsonDeserialize(IOEnv.CFGS)      \* [k, sz, el, mem]
Content == IOEnv.FOCUS = "content"
Memory == IOEnv.FOCUS = "memory"

VARIABLES tid, l, st
vars == <<tid, l, st>>
Cfg == Cfgs[Traces[tid].cfg]

Obs(e, v) == CHOOSE o \in {e.obs[i] : i \in 1..Len(e.obs)} : o.v = v
Seen(e) == {e.obs[i].v : i \in 1..Len(e.obs)}

\* the outcome c must be what is seen of the containers
Looks(c, e) ==
  /\ DOMAIN c = Seen(e)
  /\ \A v \in DOMAIN c : LET o == Obs(e, v) IN
       /\ Agrees(c[v], o.c) /\ o.n = Len(c[v]) /\ o.em = (o.n = 0)
       /\ (o.n > 0 => o.mis = 0)
       /\ Cfg.k = "vec" => o.cap >= o.n

Sto(e) == [v \in Seen(e) |-> LET o == Obs(e, v) IN [cap |-> o.cap, b |-> o.b, o |-> o.o]]
Same(v, e) == LET x == st.sto[v]  o == Obs(e, v) IN x.cap = o.cap /\ x.b = o.b /\ x.o = o.o
\* containers not involved stay as they are; storage only moves when it has to
Still(e) ==
  Cfg.k # "buf" =>
  /\ \A v \in Seen(e) \cap DOMAIN st.sto : v # e.v /\ (Takes(e.e) => v # e.w) => Same(v, e)
  /\ (Cfg.k = "vec" /\ Stays(e.e) /\ Obs(e, e.v).n <= st.sto[e.v].cap /\ (e.e = "rsv" => e.n <= st.sto[e.v].cap)) => Same(e.v, e)
  /\ (Cfg.k = "arr" /\ e.e = "set") => Same(e.v, e)
  /\ e.e = "rsv" => Obs(e, e.v).cap >= e.n

\* the elements of a container lie in memory it has obtained, and in no other's
Placed(e, m) == \A v \in Seen(e) : LET o == Obs(e, v) IN
  o.cap > 0 => /\ o.b \in DOMAIN m /\ o.o >= 0 /\ o.o + o.cap * Cfg.el <= m[o.b].n
               /\ \A u \in Seen(e) : u # v /\ Obs(e, u).cap > 0 => Obs(e, u).b # o.b

Step(e) ==
  IF e.e = "crash" THEN {}
  ELSE IF e.e = "end" THEN IF Memory /\ Cfg.mem /\ (MemDo(st.mem, e.mem, 1) # {<<>>} \/ e.live # 0) THEN {} ELSE {st}
  ELSE LET a == [op |-> e.e, v |-> e.v, w |-> e.w, i |-> e.i, j |-> e.j, n |-> e.n, x |-> e.x, xs |-> e.xs]
           ms == IF Memory /\ Cfg.mem THEN MemDo(st.mem, e.mem, 1) ELSE {st.mem}
           S == IF ~Content THEN {st}
                ELSE IF ~Pre(Cfg.k, Cfg.sz, st.c, a) THEN {}
                ELSE { [st EXCEPT !.c = [v \in DOMAIN o.c |-> Obs(e, v).c]] :
                         o \in {p \in Do(Cfg.k, Cfg.sz, st.c, a) : AgreesV(p.r, e.r) /\ Looks(p.c, e)} }
       IN UNION { { [s EXCEPT !.mem = m, !.sto = Sto(e)] : s \in S }
                  : m \in {x \in ms : (Memory /\ Cfg.mem => Placed(e, x)) /\ (Content => Still(e))} }

Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ st = [c |-> <<>>, sto |-> <<>>, mem |-> <<>>]
Next == /\ l \in 1..Len(Traces[tid].ev)
        /\ LET S == Step(Traces[tid].ev[l])
           IN IF S = {} THEN PrintT(<<"REJECT", tid, l>>) /\ st' = st /\ l' = -1
              ELSE st' = (CHOOSE s \in S : TRUE) /\ l' = l + 1 /\ (l = Len(Traces[tid].ev) => PrintT(<<"ACCEPT", tid>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
