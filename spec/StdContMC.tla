----------------------------- MODULE StdContMC -----------------------------
(* Explores every history of a few vectors ("vi") and lists ("li") that share arenas.  A design - blocks that
   belong to arenas, one for a vector and one for every node of a list, arenas counted by the allocators that refer
   to them - runs along with StdCont and must agree with it; a container's blocks must come from its own arena,
   arenas must go when the last allocator does and hold no block then. *)
EXTENDS StdCont, Json, IOUtils, TLCExt

Pars == JsonDeserialize(IOEnv.PARAMS)  \* sequence of [cfg, vars, hnds, len, vals, depth, cap, ops, types]
VARIABLES s, g, bad, act, d, k
vars == <<s, g, bad, act, d, k>>
Par == Pars[k]
Ops == {Par.ops[i] : i \in 1..Len(Par.ops)}
Types == {Par.types[i] : i \in 1..Len(Par.types)}

\* g: [v, h, m, rc, ok]: container -> [t, ar, b], b its blocks in order; handle -> arena; block -> [ar, x]; arena -> its users
New(q, ar, x) == LET b == CHOOSE n \in 1..99 : n \notin DOMAIN q.m /\ \A o \in 1..n-1 : o \in DOMAIN q.m
                 IN [q |-> [q EXCEPT !.m = Put(@, b, [ar |-> ar, x |-> x]), !.ok = @ /\ ar \in DOMAIN q.rc], b |-> b]
Free(q, b, ar) == [q EXCEPT !.m = Del(@, b), !.ok = @ /\ b \in DOMAIN q.m /\ q.m[b].ar = ar /\ ar \in DOMAIN q.rc]
RECURSIVE FreeAll(_, _, _), Nodes(_, _, _, _)
FreeAll(q, bs, ar) == IF bs = <<>> THEN q ELSE FreeAll(Free(q, bs[1], ar), Tail(bs), ar)
Nodes(q, ar, xs, bs) == IF xs = <<>> THEN [q |-> q, b |-> bs] ELSE LET n == New(q, ar, <<xs[1]>>) IN Nodes(n.q, ar, Tail(xs), Append(bs, n.b))
Blocks(q, t, ar, xs) == IF t = "li" THEN Nodes(q, ar, xs, <<>>)
                        ELSE IF xs = <<>> THEN [q |-> q, b |-> <<>>] ELSE LET n == New(q, ar, xs) IN [q |-> n.q, b |-> <<n.b>>]
RECURSIVE Data(_, _)
Data(q, bs) == IF bs = <<>> THEN <<>> ELSE q.m[bs[1]].x \o Data(q, Tail(bs))
Val(q, v) == Data(q, q.v[v].b)
Ref(q, ar) == [q EXCEPT !.rc = Put(@, ar, (IF ar \in DOMAIN @ THEN @[ar] ELSE 0) + 1)]
Unref(q, ar) == IF q.rc[ar] > 1 THEN [q EXCEPT !.rc = [@ EXCEPT ![ar] = @ - 1]]
                ELSE [q EXCEPT !.rc = Del(@, ar), !.ok = @ /\ \A b \in DOMAIN q.m : q.m[b].ar # ar]
Start(q) == CHOOSE n \in 1..99 : n \notin DOMAIN q.rc /\ \A o \in 1..n-1 : o \in DOMAIN q.rc
\* a container made with an arena and elements; one that gets other elements of its own
Make(q, v, t, ar, xs) == LET n == Blocks(Ref(q, ar), t, ar, xs) IN [n.q EXCEPT !.v = Put(@, v, [t |-> t, ar |-> ar, b |-> n.b])]
Renew(q, v, xs) == LET o == q.v[v]  n == Blocks(q, o.t, o.ar, xs) IN [FreeAll(n.q, o.b, o.ar) EXCEPT !.v = [@ EXCEPT ![v].b = n.b]]
Give(q, v, bs) == [q EXCEPT !.v = [@ EXCEPT ![v].b = bs]]
Empty(q, v) == Give(FreeAll(q, q.v[v].b, q.v[v].ar), v, <<>>)
Conc(q, a) ==
  LET o == IF a.v \in DOMAIN q.v THEN q.v[a.v] ELSE [t |-> a.t, ar |-> 0, b |-> <<>>]
      p == IF Pairs(a.op) THEN q.v[a.w] ELSE o
      ar == IF a.h # 0 THEN q.h[a.h] ELSE Start(q)
      bs == o.b IN
  CASE a.op = "hnd" -> [Ref(q, Start(q)) EXCEPT !.h = Put(@, a.v, Start(q))]
    [] a.op = "drop" -> [Unref(q, q.h[a.v]) EXCEPT !.h = Del(@, a.v)]
    [] a.op = "new" -> Make(q, a.v, a.t, ar, <<>>)
    [] a.op = "newr" -> Make(q, a.v, a.t, p.ar, <<>>)
    [] a.op = "ccon" -> Make(q, a.v, p.t, p.ar, Val(q, a.w))
    [] a.op = "ccona" -> Make(q, a.v, p.t, ar, Val(q, a.w))
    [] a.op = "mcon" -> Give(Give(Make(q, a.v, p.t, p.ar, <<>>), a.v, p.b), a.w, <<>>)
    [] a.op = "mcona" -> IF ar = p.ar THEN Give(Give(Make(q, a.v, p.t, ar, <<>>), a.v, p.b), a.w, <<>>)
                         ELSE Empty(Make(q, a.v, p.t, ar, Val(q, a.w)), a.w)
    [] a.op = "cass" -> IF a.v = a.w THEN q ELSE Renew(q, a.v, Val(q, a.w))
    [] a.op = "mass" -> IF o.ar = p.ar THEN Give(Give(Empty(q, a.v), a.v, p.b), a.w, <<>>) ELSE Empty(Renew(q, a.v, Val(q, a.w)), a.w)
    [] a.op = "swap" -> Give(Give(q, a.v, p.b), a.w, bs)
    [] a.op = "del" -> LET e == Unref(Empty(q, a.v), o.ar) IN [e EXCEPT !.v = Del(@, a.v)]
    [] a.op = "clr" -> Empty(q, a.v)
    [] a.op = "pb" -> IF o.t = "li" THEN LET n == New(q, o.ar, <<a.x>>) IN Give(n.q, a.v, Append(bs, n.b)) ELSE Renew(q, a.v, Append(Val(q, a.v), a.x))
    [] a.op = "era" -> IF o.t = "li" THEN Give(Free(q, bs[a.i + 1], o.ar), a.v, Cut(bs, a.i, a.i + 1)) ELSE Renew(q, a.v, Cut(Val(q, a.v), a.i, a.i + 1))
    [] a.op = "spl" -> Give(Give(q, a.v, InsAt(bs, a.i, p.b)), a.w, <<>>)
    [] a.op = "splr" -> Give(Give(q, a.v, InsAt(bs, a.i, SubSeq(p.b, a.j + 1, a.j + a.n))), a.w, Cut(p.b, a.j, a.j + a.n))

A(op, v, t, w, i, j, n, x, h) == [op |-> op, v |-> v, t |-> t, w |-> w, i |-> i, j |-> j, n |-> n, x |-> x, xs |-> <<>>, h |-> h]
NextV == {v \in 1..Par.vars : v \notin DOMAIN s.c /\ \A u \in 1..v-1 : u \in DOMAIN s.c}
NextH == {v \in 1..Par.hnds : v \notin DOMAIN s.hs /\ \A u \in 1..v-1 : u \in DOMAIN s.hs}
Acts ==
  LET D == DOMAIN s.c  V == NextV  H == DOMAIN s.hs IN
  { A("hnd", v, "", 0, 0, 0, 0, 0, 0) : v \in NextH } \cup { A("drop", v, "", 0, 0, 0, 0, 0, 0) : v \in H }
  \cup { A("new", v, t, 0, 0, 0, 0, 0, h) : v \in V, t \in Types, h \in H \cup {0} }
  \cup { A("newr", v, t, w, 0, 0, 0, 0, 0) : v \in V, t \in Types, w \in D }
  \cup { A(o, v, s.c[w].t, w, 0, 0, 0, 0, 0) : o \in {"ccon", "mcon"}, v \in V, w \in D }
  \cup { A(o, v, s.c[w].t, w, 0, 0, 0, 0, h) : o \in {"ccona", "mcona"}, v \in V, w \in D, h \in H }
  \cup { A(o, v, s.c[v].t, w, 0, 0, 0, 0, 0) : o \in {"cass"}, v \in D, w \in D }
  \cup { A(o, v, s.c[v].t, w, 0, 0, 0, 0, 0) : o \in {"mass", "swap"}, v \in D, w \in {u \in D : u # 0} }
  \cup { A(o, v, s.c[v].t, 0, 0, 0, 0, 0, 0) : o \in {"del", "clr"}, v \in D }
  \cup { A("pb", v, s.c[v].t, 0, 0, 0, 0, x, 0) : v \in D, x \in 1..Par.vals }
  \cup { A("era", v, s.c[v].t, 0, i, 0, 0, 0, 0) : v \in D, i \in 0..Par.len-1 }
  \cup { A("spl", v, s.c[v].t, w, i, 0, 0, 0, 0) : v \in D, w \in D, i \in 0..Par.len }
  \cup { A("splr", v, s.c[v].t, w, i, j, 1, 0, 0) : v \in D, w \in D, i \in 0..Par.len, j \in 0..Par.len-1 }
Fit(a) == /\ a.op \in {"mass", "swap"} => a.v # a.w
          /\ a.op = "era" => a.i < Len(s.c[a.v].s)
          /\ a.op \in {"spl", "splr"} => s.c[a.v].t = "li" /\ a.i <= Len(s.c[a.v].s)
          /\ a.op = "splr" => a.j < Len(s.c[a.w].s)
Init == /\ k \in 1..Len(Pars) /\ s = [c |-> <<>>, hs |-> <<>>] /\ g = [v |-> <<>>, h |-> <<>>, m |-> <<>>, rc |-> <<>>, ok |-> TRUE] /\ bad = FALSE /\ d = 0
        /\ act = A("init", 0, "", 0, 0, 0, 0, 0, 0) /\ TLCSet(k, 0)
Next == /\ d < Par.depth /\ TLCGet(k) < Par.cap /\ TLCSet(k, TLCGet(k) + 1) /\ d' = d + 1 /\ k' = k
        /\ \E a \in {x \in Acts : x.op \in Ops} :
             /\ Pre(s, a) /\ Fit(a) /\ act' = a
             /\ LET q == Conc(g, a)
                    P == {o \in Do(s, a) : DOMAIN o.s.c = DOMAIN q.v /\ o.s.hs = q.h
                                           /\ \A v \in DOMAIN q.v : o.s.c[v].t = q.v[v].t /\ o.s.c[v].ar = q.v[v].ar /\ (o.s.c[v].s = Any7 \/ o.s.c[v].s = Val(q, v))}
                IN /\ \A v \in DOMAIN q.v : Len(Val(q, v)) <= Par.len
                   /\ g' = q
                   /\ IF P = {} THEN bad' = TRUE /\ s' = s
                      ELSE bad' = bad /\ s' = [hs |-> q.h, c |-> [v \in DOMAIN q.v |-> [t |-> q.v[v].t, s |-> Val(q, v), ar |-> q.v[v].ar]]]
Spec == Init /\ [][Next]_vars
View == <<k, s>>
Edge == PrintT(<<"E", k, TLCFP(s), TLCFP(s'), act'.op, act'.v, act'.t, act'.w, act'.i, act'.j, act'.n, act'.x, act'.h>>)

Agree == ~bad
Sound == g.ok
\* arenas are those in use, and blocks those of the containers, each from its container's arena
Kept == /\ DOMAIN g.rc = Used(s)
        /\ DOMAIN g.m = UNION { {g.v[v].b[i] : i \in 1..Len(g.v[v].b)} : v \in DOMAIN g.v }
        /\ \A v \in DOMAIN g.v : \A i \in 1..Len(g.v[v].b) : g.m[g.v[v].b[i]].ar = g.v[v].ar
=============================================================================
