------------------------------ MODULE SeqsMC ------------------------------
(* Explores every history of vectors, arrays or buffers within small bounds: a design of the storage (blocks
   obtained from allocators, begin, length and capacity, elements moved between blocks, arguments read before
   blocks are given back) runs along with Seqs, must agree with it at every step and must keep exactly the
   blocks that its containers refer to.  The transitions are printed for replay on the real code. *)
EXTENDS Seqs, Json, IOUtils, TLCExt

Pars == JsonDeserialize(IOEnv.PARAMS) \* sequence of [cfg, k, sz, vars, ops, vals, len, depth, cap, als]
VARIABLES c, vs, mem, bad, act, d, k
vars == <<c, vs, mem, bad, act, d, k>>
Par == Pars[k]
Ops == {Par.ops[i] : i \in 1..Len(Par.ops)}
Vals == 1..Par.vals
K == Par.k

\* ---------------------------------------------------------------- the design of the storage
Blocks == 1..2 * Par.vars
NewBlk(m) == CHOOSE b \in Blocks : b \notin DOMAIN m /\ \A x \in Blocks : x \notin DOMAIN m => b <= x
Get(h, n, al) == LET b == NewBlk(h.m) IN [m |-> Put(h.m, b, [n |-> n, al |-> al, d |-> Fill(n, Anything)]), b |-> b]
Poke(m, b, i, x) == [m EXCEPT ![b].d = [@ EXCEPT ![i] = x]]
Data(h, v) == LET r == h.v[v] IN IF r.b = 0 THEN <<>> ELSE SubSeq(h.m[r.b].d, 1, r.len)
Store(m, b, s) == [m EXCEPT ![b].d = [i \in 1..Len(@) |-> IF i <= Len(s) THEN s[i] ELSE @[i]]]
Drop(h, v) == IF h.v[v].b = 0 THEN h.m ELSE Del(h.m, h.v[v].b)
\* a container with elements s in a new block of n elements of allocator al
Make(h, v, al, n, s) == LET g == Get(h, n, al) IN [v |-> Put(h.v, v, [al |-> al, b |-> g.b, len |-> Len(s), cap |-> n]), m |-> Store(g.m, g.b, s)]
Empty(h, v, al) == [h EXCEPT !.v = Put(@, v, [al |-> al, b |-> 0, len |-> 0, cap |-> 0])]
\* exchange the block for one of n elements: first get, then copy, then give back
Move(h, v, n) == LET s == Data(h, v)  g == Get(h, n, h.v[v].al)
                     t == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
                     m1 == Store(g.m, g.b, t)
                 IN [v |-> [h.v EXCEPT ![v].b = g.b, ![v].cap = n, ![v].len = Len(t)], m |-> IF h.v[v].b = 0 THEN m1 ELSE Del(m1, h.v[v].b)]
Grow(h, v, n) == LET cap == h.v[v].cap IN Move(h, v, cap + (IF cap \div 2 > n THEN cap \div 2 ELSE n))
Room(h, v) == IF h.v[v].len = h.v[v].cap THEN Grow(h, v, 1) ELSE h
Append1(h, v, x) == LET g == Room(h, v)  r == g.v[v] IN [v |-> [g.v EXCEPT ![v].len = @ + 1], m |-> Poke(g.m, r.b, r.len + 1, x)]
AppendS(h, v, s) == LET r0 == h.v[v]
                        g == IF r0.cap - r0.len < Len(s) THEN Grow(h, v, Len(s)) ELSE h
                        r == g.v[v]
                    IN IF r.b = 0 THEN g ELSE [v |-> [g.v EXCEPT ![v].len = @ + Len(s)], m |-> [g.m EXCEPT ![r.b].d = [i \in 1..Len(@) |-> IF i > r.len /\ i <= r.len + Len(s) THEN s[i - r.len] ELSE @[i]]]]
Insert(h, v, i, x) == LET g == Room(h, v)  r == g.v[v]
                      IN [v |-> [g.v EXCEPT ![v].len = @ + 1],
                          m |-> [g.m EXCEPT ![r.b].d = [j \in 1..Len(@) |-> IF j = i + 1 THEN x ELSE IF j > i + 1 /\ j <= r.len + 1 THEN @[j - 1] ELSE @[j]]]]
Remove(h, v, i, j) == LET r == h.v[v]  n == j - i
                      IN IF r.b = 0 THEN h ELSE [v |-> [h.v EXCEPT ![v].len = @ - n], m |-> [h.m EXCEPT ![r.b].d = [x \in 1..Len(@) |-> IF x > i /\ x <= r.len - n THEN @[x + n] ELSE @[x]]]]
Take(h, v, w) == [h EXCEPT !.v = Put(Put(@, v, h.v[w]), w, [h.v[w] EXCEPT !.b = 0, !.len = 0, !.cap = 0])]

Conc(h, a) ==
  LET al == IF a.op \in {"ccon", "mcon"} THEN h.v[a.w].al ELSE a.n2
      s == Data(h, a.v)
      ass == [v |-> h.v, m |-> Drop(h, a.v)]
  IN CASE a.op = "new" -> Empty(h, a.v, al)
       [] a.op = "newn" -> Make(h, a.v, al, a.n, Fill(a.n, Anything))
       [] a.op = "newv" -> Make(h, a.v, al, a.n, Fill(a.n, a.x))
       [] a.op \in {"newi", "newr"} -> Make(h, a.v, al, Len(a.xs), a.xs)
       [] a.op \in {"ccon", "ccona"} -> Make(h, a.v, al, h.v[a.w].len, Data(h, a.w))
       [] a.op = "mcon" -> Take(h, a.v, a.w)
       [] a.op = "mcona" -> LET g == Make(h, a.v, al, h.v[a.w].len, Data(h, a.w))
                            IN [v |-> Empty(g, a.w, g.v[a.w].al).v, m |-> Drop(g, a.w)]
       [] a.op = "cass" -> IF a.v = a.w THEN h ELSE Make(ass, a.v, h.v[a.w].al, h.v[a.w].len, Data(h, a.w))
       [] a.op = "mass" -> IF a.v = a.w THEN Empty(ass, a.v, h.v[a.v].al) ELSE Take(ass, a.v, a.w)
       [] a.op = "del" -> [v |-> Del(h.v, a.v), m |-> Drop(h, a.v)]
       [] a.op \in {"push", "pushm", "emb"} -> Append1(h, a.v, a.x)
       [] a.op \in {"pusha", "pushb", "emba"} -> Append1(h, a.v, s[a.i + 1])
       [] a.op = "pushr" -> AppendS(h, a.v, a.xs)
       [] a.op = "pushw" -> AppendS(h, a.v, Data(h, a.w))
       [] a.op = "emp" -> Insert(h, a.v, a.i, a.x)
       [] a.op = "empa" -> Insert(h, a.v, a.i, s[a.j + 1])
       [] a.op = "era" -> Remove(h, a.v, a.i, a.i + 1)
       [] a.op = "erar" -> Remove(h, a.v, a.i, a.j)
       [] a.op = "pop" -> [h EXCEPT !.v = [@ EXCEPT ![a.v].len = @ - 1]]
       [] a.op = "rsz" -> IF K = "arr" THEN (IF a.n = h.v[a.v].len THEN h
                                             ELSE LET g == Move(h, a.v, a.n) IN [g EXCEPT !.v = [@ EXCEPT ![a.v].len = a.n]])
                          ELSE LET g == IF h.v[a.v].cap < a.n THEN Grow(h, a.v, a.n - h.v[a.v].cap) ELSE h
                               IN [g EXCEPT !.v = [@ EXCEPT ![a.v].len = a.n]]
       [] a.op = "rsv" -> IF h.v[a.v].cap < a.n THEN Move(h, a.v, a.n) ELSE h
       [] a.op = "clr" -> [h EXCEPT !.v = [@ EXCEPT ![a.v].len = 0]]
       [] a.op = "set" -> [h EXCEPT !.m = Poke(@, h.v[a.v].b, (a.i % h.v[a.v].len) + 1, a.x)]
       [] a.op \in {"asg", "asgw"} ->
            LET t == IF a.op = "asg" THEN a.xs ELSE Data(h, a.w)
                g == IF Len(t) = h.v[a.v].len THEN h
                     ELSE LET x == Get(h, Len(t), h.v[a.v].al) IN [v |-> [h.v EXCEPT ![a.v].b = x.b, ![a.v].len = Len(t), ![a.v].cap = Len(t)], m |-> IF h.v[a.v].b = 0 THEN x.m ELSE Del(x.m, h.v[a.v].b)]
            IN IF g.v[a.v].b = 0 THEN g ELSE [g EXCEPT !.m = Store(@, g.v[a.v].b, t)]

\* buffers contain their elements
ConcBuf(h, a) ==
  LET n == Par.sz
      own(s) == Make([h EXCEPT !.m = IF a.v \in DOMAIN h.v THEN Drop(h, a.v) ELSE @], a.v, 0, n, s)
  IN CASE a.op = "new" -> own(Fill(n, Anything))
       [] a.op = "newv" -> own(Fill(n, a.x))
       [] a.op = "newi" -> own(Size(a.xs, n))
       [] a.op \in {"newr", "asg"} -> own(a.xs)
       [] a.op \in {"ccon", "mcon", "cass", "mass"} -> own(Data(h, a.w))
       [] a.op = "del" -> [v |-> Del(h.v, a.v), m |-> Drop(h, a.v)]
       [] a.op = "set" -> [h EXCEPT !.m = Poke(@, h.v[a.v].b, (a.i % n) + 1, a.x)]

\* ---------------------------------------------------------------- exploration
A(op, v, w, i, j, n, x, xs, al) == [op |-> op, v |-> v, w |-> w, i |-> i, j |-> j, n |-> n, x |-> x, xs |-> xs, n2 |-> al]
Lists(m) == UNION { [1..n -> Vals] : n \in 0..m }
Few == {<<>>, <<1>>, <<2, 1>>, <<1, 2, 1>>}
NewV == {v \in 1..Par.vars : v \notin DOMAIN c /\ \A u \in 1..v-1 : u \in DOMAIN c}
Als == 1..Par.als
L == Par.len
Acts ==
  LET D == DOMAIN c  V == NewV IN
  { A("new", v, 0, 0, 0, 0, 0, <<>>, al) : v \in V, al \in Als }
  \cup { A("newn", v, 0, 0, 0, n, 0, <<>>, al) : v \in V, al \in Als, n \in {0, 2} }
  \cup { A("newv", v, 0, 0, 0, n, 1, <<>>, al) : v \in V, al \in Als, n \in {0, 1, 2} }
  \cup { A(o, v, 0, 0, 0, 0, 0, xs, al) : o \in {"newi", "newr"}, v \in V, al \in Als, xs \in Few }
  \cup { A(o, v, w, 0, 0, 0, 0, <<>>, 0) : o \in {"ccon", "mcon"}, v \in V, w \in D }
  \cup { A(o, v, w, 0, 0, 0, 0, <<>>, al) : o \in {"ccona", "mcona"}, v \in V, w \in D, al \in Als }
  \cup { A(o, v, w, 0, 0, 0, 0, <<>>, 0) : o \in {"cass", "mass", "pushw", "asgw"}, v \in D, w \in D }
  \cup { A(o, v, 0, 0, 0, 0, 0, <<>>, 0) : o \in {"del", "pop", "clr"}, v \in D }
  \cup { A(o, v, 0, 0, 0, 0, x, <<>>, 0) : o \in {"push", "pushm", "emb"}, v \in D, x \in Vals }
  \cup { A(o, v, 0, i, 0, 0, 0, <<>>, 0) : o \in {"pusha", "pushb", "emba", "era"}, v \in D, i \in 0..L-1 }
  \cup { A(o, v, 0, 0, 0, 0, 0, xs, 0) : o \in {"pushr", "asg"}, v \in D, xs \in Few }
  \cup { A("emp", v, 0, i, 0, 0, x, <<>>, 0) : v \in D, i \in 0..L, x \in Vals }
  \cup { A("empa", v, 0, i, j, 0, 0, <<>>, 0) : v \in D, i \in 0..L, j \in 0..L-1 }
  \cup { A("erar", v, 0, i, j, 0, 0, <<>>, 0) : v \in D, i \in 0..L, j \in 0..L }
  \cup { A(o, v, 0, 0, 0, n, 0, <<>>, 0) : o \in {"rsz", "rsv"}, v \in D, n \in 0..L+1 }
  \cup { A("set", v, 0, i, 0, 0, x, <<>>, 0) : v \in D, i \in 0..(IF K = "buf" THEN 2 * Par.sz ELSE L-1), x \in Vals }

Init == /\ k \in 1..Len(Pars) /\ c = <<>> /\ vs = <<>> /\ mem = <<>> /\ bad = FALSE /\ d = 0
        /\ act = A("init", 0, 0, 0, 0, 0, 0, <<>>, 0) /\ TLCSet(k, 0)
Next == /\ d < Par.depth /\ TLCGet(k) < Par.cap /\ TLCSet(k, TLCGet(k) + 1) /\ d' = d + 1 /\ k' = k
        /\ \E a \in {x \in Acts : x.op \in Ops} :
             /\ Pre(K, Par.sz, c, a)
             /\ act' = a
             /\ LET h == IF K = "buf" THEN ConcBuf([v |-> vs, m |-> mem], a) ELSE Conc([v |-> vs, m |-> mem], a)
                    P == {p.c : p \in {o \in Do(K, Par.sz, c, a) : DOMAIN o.c = DOMAIN h.v /\ \A v \in DOMAIN h.v : o.c[v] = Data(h, v)}}
                IN /\ \A v \in DOMAIN h.v : h.v[v].len <= L
                   /\ vs' = h.v /\ mem' = h.m
                   /\ IF P = {} THEN bad' = TRUE /\ c' = c ELSE bad' = bad /\ c' \in P
Spec == Init /\ [][Next]_vars
St == <<c, [v \in DOMAIN vs |-> <<vs[v].al, vs[v].cap, vs[v].b = 0>>]>>
View == <<k, St>>
Edge == PrintT(<<"E", k, TLCFP(St), TLCFP(St'), act'.op, act'.v, act'.w, act'.i, act'.j, act'.n, act'.x, act'.xs, act'.n2>>)

Agree == ~bad
Kept == /\ DOMAIN mem = {vs[v].b : v \in DOMAIN vs} \ {0}
        /\ \A v \in DOMAIN vs : LET r == vs[v] IN /\ r.len <= r.cap
                                                  /\ r.b # 0 => mem[r.b].n = r.cap /\ mem[r.b].al = r.al
                                                  /\ r.b = 0 => r.cap = 0
                                                  /\ \A u \in DOMAIN vs : u # v /\ r.b # 0 => vs[u].b # r.b
=============================================================================
