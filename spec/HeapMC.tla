------------------------------- MODULE HeapMC -------------------------------
(* Explores every history of binary heaps within small bounds.  A design of the heap - an array in a block of
   memory whose slots are raw, hold an object or hold one that was moved from, sifting, growing, moving to
   another allocator - runs along with Heap and must agree with it at every step; no step may use a slot
   against its state, no block may be given back with objects in it, and the heap order must hold. *)
EXTENDS Heap, Json, IOUtils, TLCExt

Pars == JsonDeserialize(IOEnv.PARAMS)  \* sequence of [cfg, vars, vals, kinds, len, depth, cap, als, ops]
VARIABLES h, g, bad, act, d, k
vars == <<h, g, bad, act, d, k>>
Par == Pars[k]
Ops == {Par.ops[i] : i \in 1..Len(Par.ops)}
Vals == {Par.vals[i] : i \in 1..Len(Par.vals)}

\* ---------------------------------------------------------------- slots of memory; g: [v, m, ok]
Blocks == 1..Par.vars * 2
Raw == [s |-> "raw", x |-> 0]
Slot(q, b, i) == q.m[b].d[i]
Set(q, b, i, s, x, fine) == [q EXCEPT !.m = [@ EXCEPT ![b].d = [@ EXCEPT ![i] = [s |-> s, x |-> x]]], !.ok = @ /\ fine]
Con(q, b, i, x) == Set(q, b, i, "live", x, Slot(q, b, i).s = "raw")
Asg(q, b, i, x) == Set(q, b, i, "live", x, Slot(q, b, i).s # "raw")
Gone(q, b, i) == Set(q, b, i, "moved", Slot(q, b, i).x, Slot(q, b, i).s = "live")
Des(q, b, i) == Set(q, b, i, "raw", 0, Slot(q, b, i).s # "raw")
RECURSIVE DesAll(_, _, _), MoveAll(_, _, _, _), CopyAll(_, _, _, _), Up(_, _, _, _, _, _), Down(_, _, _, _, _, _)
DesAll(q, b, n) == IF n = 0 THEN q ELSE Des(DesAll(q, b, n - 1), b, n)
MoveAll(q, b, c, n) == IF n = 0 THEN q ELSE LET p == MoveAll(q, b, c, n - 1) IN Gone(Con(p, c, n, Slot(p, b, n).x), b, n)
CopyAll(q, b, c, n) == IF n = 0 THEN q ELSE LET p == CopyAll(q, b, c, n - 1) IN Con(p, c, n, Slot(p, b, n).x)
Get(q, n, al) == LET b == CHOOSE x \in Blocks : x \notin DOMAIN q.m /\ \A y \in Blocks : y \notin DOMAIN q.m => x <= y
                 IN [q |-> [q EXCEPT !.m = Put(@, b, [n |-> n, al |-> al, d |-> [i \in 1..n |-> Raw]])], b |-> b]
Free(q, b, n, al) == [q EXCEPT !.m = Del(@, b), !.ok = @ /\ q.m[b].n = n /\ q.m[b].al = al /\ \A i \in 1..n : q.m[b].d[i].s = "raw"]

Less(q, v, x, y) == Before(q.v[v].k, q.v[v].m, x, y)
\* x is out of the array while its slot sinks to its place; i counts from 1
Up(q, v, b, i, x, z) ==
  IF i > 1 /\ Less(q, v, x, Slot(q, b, i \div 2).x) THEN Up(Gone(Asg(q, b, i, Slot(q, b, i \div 2).x), b, i \div 2), v, b, i \div 2, x, z)
  ELSE Asg(q, b, i, x)
Down(q, v, b, i, n, z) ==
  LET l == 2 * i  r == 2 * i + 1  at(j) == Slot(q, b, j).x
      c1 == IF l <= n /\ Less(q, v, at(l), at(i)) THEN l ELSE i
      c2 == IF r <= n /\ Less(q, v, at(r), at(c1)) THEN r ELSE c1
  IN IF c2 = i THEN q ELSE Down(Asg(Asg(Gone(q, b, c2), b, c2, at(i)), b, i, at(c2)), v, b, c2, n, z)

Clear(q, v) == LET r == q.v[v] IN [DesAll(q, r.b, IF r.b = 0 THEN 0 ELSE r.n) EXCEPT !.v = [@ EXCEPT ![v].n = 0]]
Leave(q, v) == LET r == q.v[v] IN IF r.b = 0 THEN q ELSE Free(DesAll(q, r.b, r.n), r.b, r.cap, r.al)
Resize(q, v, n) == LET r == q.v[v]  x == Get(q, n, r.al) IN
  [(IF r.b = 0 THEN x.q ELSE Free(DesAll(MoveAll(x.q, r.b, x.b, r.n), r.b, r.n), r.b, r.cap, r.al)) EXCEPT !.v = [@ EXCEPT ![v].b = x.b, ![v].cap = n]]
Insert(q, v, x) ==
  LET r0 == q.v[v]
      p == IF r0.n = r0.cap THEN Resize(q, v, r0.cap + (IF r0.cap > 1 THEN r0.cap ELSE 1)) ELSE q
      r == p.v[v]
      c == Con(p, r.b, r.n + 1, x)
      e == [Gone(c, r.b, r.n + 1) EXCEPT !.v = [@ EXCEPT ![v].n = @ + 1]]
  IN Up(e, v, r.b, r.n + 1, x, 0)
RECURSIVE InsertAll(_, _, _, _)
InsertAll(q, v, s, i) == IF i > Len(s) THEN q ELSE InsertAll(Insert(q, v, s[i]), v, s, i + 1)
Pop(q, v) ==
  LET r == q.v[v]  b == r.b  n == r.n - 1
      p == Gone(q, b, 1)
      p1 == IF n > 0 THEN Gone(Asg(p, b, 1, Slot(p, b, r.n).x), b, r.n) ELSE p
      p2 == [Des(p1, b, r.n) EXCEPT !.v = [@ EXCEPT ![v].n = n]]
  IN IF n > 0 THEN Down(p2, v, b, 1, n, 0) ELSE p2
Var(al, kk, m) == [al |-> al, b |-> 0, n |-> 0, cap |-> 0, k |-> kk, m |-> m]
New(q, v, r) == [q EXCEPT !.v = Put(@, v, r)]
Copied(q, v, w, al) == LET o == q.v[w]  x == Get(q, o.n, al) IN New(CopyAll(x.q, o.b, x.b, IF o.b = 0 THEN 0 ELSE o.n), v, [o EXCEPT !.al = al, !.b = x.b, !.cap = o.n])
Taken(q, v, w) == [q EXCEPT !.v = Put(Put(@, v, q.v[w]), w, [q.v[w] EXCEPT !.b = 0, !.n = 0, !.cap = 0])]
Conc(q, a) ==
  CASE a.op = "new" -> New(q, a.v, Var(a.al, a.k, a.m))
    [] a.op = "newc" -> LET x == Get(q, a.n, a.al) IN New(x.q, a.v, [Var(a.al, a.k, a.m) EXCEPT !.b = x.b, !.cap = a.n])
    [] a.op = "newi" -> LET x == Get(q, Len(a.xs), a.al) IN InsertAll(New(x.q, a.v, [Var(a.al, a.k, a.m) EXCEPT !.b = x.b, !.cap = Len(a.xs)]), a.v, a.xs, 1)
    [] a.op = "ccon" -> Copied(q, a.v, a.w, q.v[a.w].al)
    [] a.op = "ccona" -> Copied(q, a.v, a.w, a.al)
    [] a.op = "mcon" -> Taken(q, a.v, a.w)
    [] a.op = "mcona" -> LET o == q.v[a.w]  x == Get(q, o.n, a.al)
                             p == IF o.b = 0 THEN x.q ELSE Free(DesAll(MoveAll(x.q, o.b, x.b, o.n), o.b, o.n), o.b, o.cap, o.al)
                         IN [p EXCEPT !.v = Put(Put(@, a.v, [o EXCEPT !.al = a.al, !.b = x.b, !.cap = o.n]), a.w, [o EXCEPT !.b = 0, !.n = 0, !.cap = 0])]
    [] a.op = "cass" -> IF a.v = a.w THEN q ELSE Copied(Leave(q, a.v), a.v, a.w, q.v[a.w].al)
    [] a.op = "mass" -> IF a.v = a.w THEN LET p == Leave(q, a.v) IN [p EXCEPT !.v = [@ EXCEPT ![a.v].b = 0, ![a.v].n = 0, ![a.v].cap = 0]] ELSE Taken(Leave(q, a.v), a.v, a.w)
    [] a.op = "del" -> LET p == Leave(q, a.v) IN [p EXCEPT !.v = Del(@, a.v)]
    [] a.op = "ins" -> Insert(q, a.v, a.x)
    [] a.op = "insa" -> Insert(q, a.v, Slot(q, q.v[a.v].b, a.i + 1).x)
    [] a.op = "pop" -> Pop(q, a.v)
    [] a.op \in {"peek", "find", "fall"} -> q
    [] a.op = "clr" -> Clear(q, a.v)
    [] a.op = "rsv" -> IF q.v[a.v].cap < a.n THEN Resize(q, a.v, a.n) ELSE q

Array(q, v) == LET r == q.v[v] IN [i \in 1..r.n |-> q.m[r.b].d[i].x]
A(op, v, w, i, n, x, xs, kk, m, al) == [op |-> op, v |-> v, w |-> w, i |-> i, n |-> n, x |-> x, xs |-> xs, k |-> kk, m |-> m, al |-> al]
NewV == {v \in 1..Par.vars : v \notin DOMAIN h /\ \A u \in 1..v-1 : u \in DOMAIN h}
Kinds == {<<Par.kinds[i][1], Par.kinds[i][2]>> : i \in 1..Len(Par.kinds)}
Lo == CHOOSE x \in Vals : \A y \in Vals : x <= y
Hi == CHOOSE x \in Vals : \A y \in Vals : x >= y
Acts ==
  LET D == DOMAIN h  V == NewV  L == Par.len  Als == 1..Par.als IN
  { A(o, v, 0, 0, n, 0, <<>>, c[1], c[2], al) : o \in {"new", "newc"}, v \in V, n \in {0, 2}, c \in Kinds, al \in Als }
  \cup { A("newi", v, 0, 0, 0, 0, xs, c[1], c[2], al) : v \in V, xs \in {<<Lo>>, <<Hi, Lo, Lo>>}, c \in Kinds, al \in Als }
  \cup { A(o, v, w, 0, 0, 0, <<>>, 0, 0, al) : o \in {"ccon", "mcon", "ccona", "mcona"}, v \in V, w \in D, al \in Als }
  \cup { A(o, v, w, 0, 0, 0, <<>>, 0, 0, 0) : o \in {"cass", "mass"}, v \in D, w \in D }
  \cup { A(o, v, 0, 0, 0, 0, <<>>, 0, 0, 0) : o \in {"del", "pop", "peek", "clr", "fall"}, v \in D }
  \cup { A(o, v, 0, 0, 0, x, <<>>, 0, 0, 0) : o \in {"ins", "find"}, v \in D, x \in Vals }
  \cup { A("insa", v, 0, i, 0, 0, <<>>, 0, 0, 0) : v \in D, i \in 0..L-1 }
  \cup { A("rsv", v, 0, 0, n, 0, <<>>, 0, 0, 0) : v \in D, n \in {0, 3} }

Init == /\ k \in 1..Len(Pars) /\ h = <<>> /\ g = [v |-> <<>>, m |-> <<>>, ok |-> TRUE] /\ bad = FALSE /\ d = 0
        /\ act = A("init", 0, 0, 0, 0, 0, <<>>, 0, 0, 0) /\ TLCSet(k, 0)
Next == /\ d < Par.depth /\ TLCGet(k) < Par.cap /\ TLCSet(k, TLCGet(k) + 1) /\ d' = d + 1 /\ k' = k
        /\ \E a \in {x \in Acts : x.op \in Ops} :
             /\ Pre(h, a) /\ act' = a
             /\ LET q == Conc(g, a)
                    P == {p \in Do(h, a) : DOMAIN p.h = DOMAIN q.v /\ (\A v \in DOMAIN q.v : SameBag(p.h[v].b, Array(q, v)) /\ p.h[v].k = q.v[v].k /\ p.h[v].m = q.v[v].m)
                                           /\ (a.op \in {"pop", "peek"} => p.r = Slot(g, g.v[a.v].b, 1).x)}
                IN /\ \A v \in DOMAIN q.v : q.v[v].n <= Par.len
                   /\ g' = q
                   /\ IF P = {} THEN bad' = TRUE /\ h' = h ELSE bad' = bad /\ h' = [v \in DOMAIN q.v |-> [b |-> Array(q, v), k |-> q.v[v].k, m |-> q.v[v].m]]
Spec == Init /\ [][Next]_vars
St == [v \in DOMAIN g.v |-> <<Array(g, v), g.v[v].al, g.v[v].cap, g.v[v].b = 0, g.v[v].k, g.v[v].m>>]
View == <<k, St>>
Edge == PrintT(<<"E", k, TLCFP(St), TLCFP(St'), act'.op, act'.v, act'.w, act'.i, act'.n, act'.x, act'.xs, act'.k, act'.m, act'.al>>)

Agree == ~bad
Lifetimes == g.ok
Kept == /\ DOMAIN g.m = {g.v[v].b : v \in DOMAIN g.v} \ {0}
        /\ \A v \in DOMAIN g.v : LET r == g.v[v] IN r.b # 0 => /\ \A i \in 1..r.cap : (i <= r.n) = (g.m[r.b].d[i].s = "live") /\ (i > r.n) = (g.m[r.b].d[i].s = "raw")
                                                              /\ \A u \in DOMAIN g.v : u # v => g.v[u].b # r.b
Order == \A v \in DOMAIN g.v : LET s == Array(g, v) IN \A i \in 2..Len(s) : ~Before(g.v[v].k, g.v[v].m, s[i], s[i \div 2])
=============================================================================
