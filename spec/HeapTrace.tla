----------------------------- MODULE HeapTrace -----------------------------
(* Validates histories recorded from the real heaps against Heap ("content"), Life ("life") or Mem ("memory"). *)
EXTENDS Heap, Life, Mem, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Cfgs == JsonDeserialize(IOEnv.CFGS)      \* [el, mem, life]
Focus == IOEnv.FOCUS

VARIABLES tid, l, st
vars == <<tid, l, st>>
Cfg == Cfgs[Traces[tid].cfg]

Seen(e) == {e.obs[i].v : i \in 1..Len(e.obs)}
Obs(e, v) == e.obs[CHOOSE i \in 1..Len(e.obs) : e.obs[i].v = v]

Looks(h, e) ==
  /\ DOMAIN h = Seen(e)
  /\ \A v \in DOMAIN h : LET o == Obs(e, v) IN
       /\ SameBag(h[v].b, o.c) /\ o.n = Len(h[v].b) /\ o.em = (o.n = 0) /\ o.cap >= o.n
       /\ o.n > 0 => First(h[v], o.pk)
\* where the new or the wanted element is
Points(h, e, o) ==
  CASE e.e \in {"ins", "insa"} -> e.r >= 0 /\ e.r < o.n /\ o.c[e.r + 1] = IF e.e = "ins" THEN e.x ELSE st.h[e.v].b[e.i + 1]
    [] e.e = "find" -> IF Within(h[e.v].b, e.x) THEN e.r >= 0 /\ e.r < o.n /\ o.c[e.r + 1] = e.x ELSE e.r = o.n
    [] e.e = "fall" -> \A i \in 1..Len(e.xs) : e.xs[i] >= 0 /\ e.xs[i] < o.n /\ o.c[e.xs[i] + 1] = o.c[IF e.i = 0 THEN i ELSE o.n + 1 - i]  \* every element is found
    [] e.e = "rsv" -> o.cap >= e.n
    [] OTHER -> TRUE

Placed(e, m) == \A v \in Seen(e) : LET o == Obs(e, v) IN
  o.cap > 0 => /\ o.b \in DOMAIN m /\ o.o >= 0 /\ o.o + o.cap * Cfg.el <= m[o.b].n
               /\ \A u \in Seen(e) : u # v /\ Obs(e, u).cap > 0 => Obs(e, u).b # o.b
\* every element of a heap is an object of its own that has its value
Living(e, f) == \A v \in Seen(e) : LET o == Obs(e, v) IN
  /\ \A i \in 1..Len(o.id) : o.id[i] \in DOMAIN f /\ f[o.id[i]] = "v"
  /\ \A i, j \in 1..Len(o.id) : i # j => o.id[i] # o.id[j]

Mems(e) == IF Focus = "memory" /\ Cfg.mem THEN { m \in MemDo(st.mem, e.mem, 1) : Placed(e, m) }
           ELSE IF Focus = "life" /\ Cfg.mem THEN (IF \E i \in 1..Len(e.mem) : e.mem[i].k = "d" /\ e.mem[i].lv # 0 THEN {} ELSE {st.mem})
           ELSE {st.mem}
Lives(e) == IF Focus = "life" THEN { f \in LifeDo(st.f, e.el, 1) : Living(e, f) } ELSE {st.f}
Queues(e) ==
  IF Focus # "content" THEN {st.h}
  ELSE LET a == [op |-> e.e, v |-> e.v, w |-> e.w, i |-> e.i, n |-> e.n, x |-> e.x, xs |-> e.xs, k |-> e.k, m |-> e.m] IN
       IF ~Pre(st.h, a) THEN {}
       ELSE { [v \in DOMAIN p.h |-> [p.h[v] EXCEPT !.b = Obs(e, v).c]] :
                p \in {x \in Do(st.h, a) : Looks(x.h, e) /\ (a.op \in {"pop", "peek"} => x.r = e.r) /\ (a.op # "del" => Points(x.h, e, Obs(e, e.v)))} }

Step(e) ==
  IF e.e = "crash" THEN {}
  ELSE IF e.e = "end" THEN IF \/ Focus = "memory" /\ Cfg.mem /\ (MemDo(st.mem, e.mem, 1) # {<<>>} \/ e.live # 0)
                              \/ Focus = "life" /\ DOMAIN st.f # {} THEN {} ELSE {st}
  ELSE { [h |-> h, f |-> f, mem |-> m] : h \in Queues(e), f \in Lives(e), m \in Mems(e) }

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [h |-> <<>>, f |-> <<>>, mem |-> <<>>]
Next == /\ l \in 1..Len(Traces[tid].ev)
        /\ LET S == Step(Traces[tid].ev[l])
           IN IF S = {} THEN PrintT(<<"REJECT", tid, l>>) /\ st' = st /\ l' = -1
              ELSE st' = (CHOOSE s \in S : TRUE) /\ l' = l + 1 /\ (l = Len(Traces[tid].ev) => PrintT(<<"ACCEPT", tid>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
