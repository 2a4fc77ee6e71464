----------------------------- MODULE ThreadsMC -----------------------------
(* Explores every interleaving of small programs of several threads on a design of shared, locked allocators: a
   count of the handles and a lock for each arena.  Each step that other threads can notice is one of the design.
   It must never race, must satisfy Threads, and must not get stuck. *)
EXTENDS Hb, Threads, Json, IOUtils, TLCExt

Pars == JsonDeserialize(IOEnv.PARAMS)
\* sequence of [cfg, prog, common, raw, inc, dec, fence, qlock, split, order]: for every thread its operations [o, h, k, s]; whether the
\* main thread keeps a handle; memory orders of changes to the count; whether queries lock, whether the count is
\* decreased in two steps, whether two locks are taken one after the other
VARIABLES h, s, d, ok, act, k
vars == <<h, s, d, ok, act, k>>
Par == Pars[k]
TH == 0..Len(Par.prog)
WT == 1..Len(Par.prog)
Arenas == 1..2

\* d: [cell, cnt, lk, pc, i, left]: cell: handle -> arena or 0; pc: thread -> next step; i: next operation; left: thread -> count it saw
Hc(x) == <<"h", x>>
Ct(a) == <<"c", a>>
Lk(a) == <<"l", a>>
Dt(a) == <<"d", a>>
Idle == "beg"
Opr(t) == LET p == Par.prog[t][d.i[t]] IN [o |-> p.o, h |-> p.h, k |-> IF p.o = "de" THEN t * 10 + p.s ELSE p.k, s |-> p.s, n |-> 8, old |-> {}]
Has(t) == d.i[t] <= Len(Par.prog[t])
\* handles still to be dropped when a thread is done with its program
Own(t) == {x \in DOMAIN d.cell : x \div 10 = t}
Cur(t) == IF Has(t) THEN Opr(t) ELSE [o |-> "dr", h |-> CHOOSE x \in Own(t) : \A y \in Own(t) : x <= y, k |-> 0, s |-> 0, n |-> 8, old |-> {}]
Over(t) == ~Has(t) /\ Own(t) = {} /\ d.pc[t] = Idle
Query(o) == o \in {"ow", "mx", "eq", "ne"}
Locked(o) == Par.qlock \/ ~Query(o)

\* which operations make sense now; others are passed over
Fits(t, a) ==
  LET mine(x) == x \in DOMAIN d.cell /\ d.cell[x] # 0 /\ (x \div 10 = t \/ x < 10) IN
  CASE a.o = "cp" -> mine(a.h) /\ a.k \notin DOMAIN d.cell
    [] a.o = "mv" -> mine(a.h) /\ a.h >= 10 /\ a.k \notin DOMAIN d.cell
    [] a.o = "ca" -> mine(a.h) /\ a.k \in DOMAIN d.cell
    [] a.o = "ma" -> mine(a.h) /\ a.h >= 10 /\ a.k \in DOMAIN d.cell /\ a.h # a.k
    [] a.o = "dr" -> a.h \in DOMAIN d.cell
    [] a.o \in {"eq", "ne"} -> mine(a.h) /\ mine(a.k)
    [] a.o = "al" -> mine(a.h) /\ (t * 10 + a.s) \notin DOMAIN s.b
    [] a.o \in {"de", "ow"} -> mine(a.h) /\ (t * 10 + a.s) \in DOMAIN s.b /\ s.b[t * 10 + a.s].ar = d.cell[a.h]
    [] OTHER -> mine(a.h)
Op(t) == Par.prog[t]
Put(f, x, v) == PutF(f, x, v)
Go(nh, ns, nd, good, t, kind, a) == h' = nh /\ s' = ns /\ d' = nd /\ ok' = (ok /\ good) /\ act' = <<t, kind, a.o, a.h, a.k, a.s>> /\ k' = k
To(t, p) == [d EXCEPT !.pc[t] = p]
Alive(a) == a \in DOMAIN s.ar /\ s.ar[a] = "alive"
A(t) == d.cell[s.op[t].h]
B(t) == d.cell[s.op[t].k]
Two(t) == s.op[t].o \in {"eq", "ne"} /\ A(t) # B(t)
Inside(o) == o \in {"al", "de", "ow", "mx"}
Touch(t, g, a) == IF Query(s.op[t].o) THEN Reads(g, t, {Dt(a)}) ELSE Writes(g, t, {Dt(a)})

Begin(t) ==
  /\ d.pc[t] = Idle /\ ~Over(t)
  /\ LET a == Cur(t) IN
     IF ~Fits(t, a) THEN Go(h, s, [d EXCEPT !.i[t] = @ + 1], TRUE, t, "skip", a)
     ELSE LET b == Beg(s, t, a)
              rd == {Hc(a.h)} \cup (IF a.o \in {"ca", "ma", "eq", "ne"} THEN {Hc(a.k)} ELSE {})
              x == d.cell[a.h]
              y == IF a.k \in DOMAIN d.cell THEN d.cell[a.k] ELSE 0
              nx == CASE Inside(a.o) -> IF Locked(a.o) THEN "lk" ELSE "in"
                      [] a.o \in {"eq", "ne"} -> IF x # y /\ ~Par.raw THEN "end" ELSE IF Locked(a.o) THEN "lk" ELSE "in"
                      [] a.o = "cp" -> "inc"
                      [] a.o = "mv" -> "end"
                      [] a.o = "dr" -> IF x = 0 THEN "end" ELSE "dec"
                      [] a.o \in {"ca", "ma"} -> IF a.h = a.k THEN "end" ELSE IF y # 0 THEN "dec" ELSE IF a.o = "ca" THEN "inc" ELSE "end"
          IN Go(Reads(h, t, rd), b.s, [To(t, nx) EXCEPT !.i[t] = @ + (IF Has(t) THEN 1 ELSE 0)], b.ok, t, "beg", a)
TakeLock(t) ==
  /\ d.pc[t] = "lk"
  /\ LET a == A(t) IN
     IF ~Two(t) THEN d.lk[a] = -1 /\ Go(Lock(h, t, Lk(a)), s, [To(t, "in") EXCEPT !.lk[a] = t], TRUE, t, "lk", s.op[t])
     ELSE IF Par.order THEN d.lk[a] = -1 /\ d.lk[B(t)] = -1 /\ Go(Lock(Lock(h, t, Lk(a)), t, Lk(B(t))), s, [To(t, "in") EXCEPT !.lk[a] = t, !.lk[B(t)] = t], TRUE, t, "lk", s.op[t])
     ELSE d.lk[a] = -1 /\ Go(Lock(h, t, Lk(a)), s, [To(t, "lk2") EXCEPT !.lk[a] = t], TRUE, t, "lk", s.op[t])
TakeSecond(t) == d.pc[t] = "lk2" /\ d.lk[B(t)] = -1 /\ Go(Lock(h, t, Lk(B(t))), s, [To(t, "in") EXCEPT !.lk[B(t)] = t], TRUE, t, "lk", s.op[t])
Within(t) ==
  /\ d.pc[t] = "in"
  /\ LET e == Enter(s, t, A(t))
         g == Touch(t, h, A(t))
     IN Go(IF Two(t) THEN Reads(g, t, {Dt(B(t))}) ELSE g, e.s, To(t, "out"), e.ok, t, "in", s.op[t])
Without(t) == d.pc[t] = "out" /\ LET e == Leave(s, t, A(t)) IN Go(h, e.s, To(t, IF Locked(s.op[t].o) THEN "ul" ELSE "end"), e.ok, t, "out", s.op[t])
Release(t) ==
  /\ d.pc[t] = "ul"
  /\ LET g == Unlock(h, t, Lk(A(t)))  e == [To(t, "end") EXCEPT !.lk[A(t)] = -1]
     IN Go(IF Two(t) THEN Unlock(g, t, Lk(B(t))) ELSE g, s, IF Two(t) THEN [e EXCEPT !.lk[B(t)] = -1] ELSE e, TRUE, t, "ul", s.op[t])
Increase(t) == d.pc[t] = "inc" /\ Go(Rmw(h, t, Ct(A(t)), Par.inc), s, [To(t, "end") EXCEPT !.cnt[A(t)] = @ + 1], Alive(A(t)), t, "at", s.op[t])
\* the handle being dropped, or assigned to
Dropped(t) == d.cell[IF s.op[t].o = "dr" THEN s.op[t].h ELSE s.op[t].k]
After(t) == IF s.op[t].o = "ca" THEN "inc" ELSE "end"
Destroyed(t, g, a) == Writes(g, t, {Ct(a), Lk(a), Dt(a)})
Decrease(t) ==
  /\ d.pc[t] = "dec"
  /\ LET a == Dropped(t)
         g == IF Par.split THEN Load(h, t, Ct(a), Par.dec) ELSE Rmw(h, t, Ct(a), Par.dec)
         g2 == IF Par.fence /\ d.cnt[a] = 1 THEN Fence(g, t, 2) ELSE g
     IN IF Par.split THEN Go(g, s, [To(t, "dec2") EXCEPT !.left[t] = d.cnt[a]], Alive(a), t, "at", s.op[t])
        ELSE IF d.cnt[a] # 1 THEN Go(g, s, [To(t, After(t)) EXCEPT !.cnt[a] = @ - 1], Alive(a), t, "at", s.op[t])
        ELSE LET x == Gone(s, t, a) IN Go(Destroyed(t, g2, a), x.s, [To(t, After(t)) EXCEPT !.cnt[a] = 0], x.ok, t, "at", s.op[t])
DecreaseMore(t) ==
  /\ d.pc[t] = "dec2"
  /\ LET a == Dropped(t)  g == Store(h, t, Ct(a), Par.dec) IN
     IF d.left[t] # 1 THEN Go(g, s, [To(t, After(t)) EXCEPT !.cnt[a] = d.left[t] - 1], Alive(a), t, "at", s.op[t])
     ELSE LET x == Gone(s, t, a) IN Go(Destroyed(t, g, a), x.s, [To(t, After(t)) EXCEPT !.cnt[a] = 0], x.ok, t, "at", s.op[t])
Finish(t) ==
  /\ d.pc[t] = "end"
  /\ LET a == s.op[t]
         b == t * 10 + a.s
         wr == CASE a.o \in {"cp", "ca"} -> {Hc(a.k)} [] a.o \in {"mv", "ma"} -> {Hc(a.h), Hc(a.k)} [] a.o = "dr" -> {Hc(a.h)} [] OTHER -> {}
         x == IF a.h \in DOMAIN d.cell THEN d.cell[a.h] ELSE 0
         c == CASE a.h = a.k /\ a.o \in {"ca", "ma"} -> d.cell
                [] a.o \in {"cp", "ca"} -> Put(d.cell, a.k, x)
                [] a.o \in {"mv", "ma"} -> Put(Put(d.cell, a.k, x), a.h, 0)
                [] a.o = "dr" -> DelF(d.cell, a.h)
                [] OTHER -> d.cell
         same == a.o \in {"eq", "ne"} /\ d.cell[a.h] = d.cell[a.k]
         r == CASE a.o = "ow" -> 1 [] a.o = "eq" -> (IF same THEN 1 ELSE 0) [] a.o = "ne" -> (IF same THEN 0 ELSE 1) [] OTHER -> 0
         e == End(s, t, r, IF a.o = "al" THEN b ELSE 0, 0, [max |-> 0, full |-> TRUE])
         g == Writes(h, t, wr)
     IN Go(g, e.s, [To(t, Idle) EXCEPT !.cell = c], e.ok, t, "end", a)

\* what the main thread did before: every thread has handles t0 of arena 1 and t1 of arena 2, the main thread 0 and 1 if it keeps any
Cells == IF Par.raw THEN {0, 1} ELSE {t * 10 + j : t \in (IF Par.common THEN TH ELSE WT), j \in 0..1}
ArOf(x) == (x % 10) + 1
RECURSIVE SpawnAll(_, _)
SpawnAll(g, t) == IF t > Len(Par.prog) THEN g ELSE SpawnAll(Spawn(g, 0, t), t + 1)
Init == /\ k \in 1..Len(Pars) /\ ok = TRUE /\ act = <<0, "init", "", 0, 0, 0>>
        /\ h = SpawnAll(Writes(HbStart(TH), 0, {Hc(x) : x \in Cells} \cup {Ct(1), Ct(2), Lk(1), Lk(2), Dt(1), Dt(2)}), 1)
        /\ s = [ThStart(TH) EXCEPT !.h = [x \in Cells |-> [ar |-> ArOf(x), may |-> {}]], !.ar = [a \in Arenas |-> "alive"]]
        /\ d = [cell |-> [x \in Cells |-> ArOf(x)], cnt |-> [a \in Arenas |-> Cardinality({x \in Cells : ArOf(x) = a})], lk |-> [a \in Arenas |-> -1],
                pc |-> [t \in TH |-> Idle], i |-> [t \in TH |-> 1], left |-> [t \in TH |-> 0]]
Next == ok /\ h.ok /\ \E t \in WT : Begin(t) \/ TakeLock(t) \/ TakeSecond(t) \/ Within(t) \/ Without(t) \/ Release(t) \/ Increase(t) \/ Decrease(t) \/ DecreaseMore(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
View == <<k, h, s, d, ok>>
Edge == PrintT(<<"E", k, TLCFP(<<h, s, d>>), TLCFP(<<h', s', d'>>)>> \o act')

AllOver == \A t \in WT : Over(t)
Fine == /\ ok /\ h.ok
        /\ Quiet(s)
        /\ AllOver \/ \E t \in WT : (d.pc[t] = "lk" => d.lk[A(t)] = -1 /\ (Two(t) /\ Par.order => d.lk[B(t)] = -1)) /\ (d.pc[t] = "lk2" => d.lk[B(t)] = -1) /\ ~Over(t)
        /\ AllOver => \A a \in Arenas : s.ar[a] = "gone" \/ a \in Held(s)
        /\ \A a \in Arenas : s.ar[a] = "alive" /\ d.lk[a] = -1 /\ ~Par.raw /\ (\A t \in WT : d.pc[t] = Idle) => d.cnt[a] = Cardinality({x \in DOMAIN d.cell : d.cell[x] = a})
\* designs that are known to be wrong are told by an invariant that fails; these are given with Par.wrong
Sound == Par.wrong \/ Fine
Found == (Par.wrong /\ ~Fine) => PrintT(<<"WRONG", k>>)
=============================================================================
