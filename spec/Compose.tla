------------------------------ MODULE Compose ------------------------------
(* Semantics of compositions of allocators as an interpreter of composition trees.

   A tree t is a record with a field k:
     lf  leaf (id, max, st)      "own" contained state, "handle" copies share it, "none" stateless
     lin stk  bump allocators (id, size; st as above)     mal  the system allocator     nul  the one that has nothing
     fb  fallback over a list l      sg  segregation over a list l with thresholds t
     fl  freelist (lo, hi, a)        ca  cascading (a)       ov  overflow checking (a)
     sh th rf gl ty(sz)              wrappers (a)

   The state s of a tree:
     leaf: instance number    fb, sg: sequence of states    fl: [free, a]    ca: sequence of [cnt, a]
     ov: [al, cn, a]  (bytes and objects outstanding)       others: the state of a

   Every effect on a recording leaf (lf) is a call; w is the world in which calls happen:
     w.tape   calls the implementation made (still to be explained), or, generating, is ignored
     w.gen    TRUE: leaf outcomes are chosen freely and w.bits records the choices
     w.refs   instance -> number of handles
     w.out    block -> [i, n, rel, a] not yet returned to the leaf; rel: offset in a bump allocator, a: address
     w.ls     instance of a bump allocator -> [top, used, base, size]
     w.sm     block -> offsets of the bytes around its content that are not as the overflow allocator left them
     w.rep    reports written to streams            w.mf   failures of the system allocator still to be explained
     w.nx     number of instances and blocks so far of leaves that are not recorded
     w.mi w.mb  generating: the number of instances and of blocks there may be
     w.left   what was only referred to and outlives the reference
     w.lz     instance of stateless leaves          w.ever blocks that ever existed

   All operators return the set of admissible outcomes. A real execution is admissible iff its calls and
   results are those of an outcome; both model checking and trace validation use the same operators. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Guard, Huge

\* ---------------------------------------------------------------- worlds
World0 == [gen |-> FALSE, tape |-> <<>>, bits |-> <<>>, refs |-> <<>>, out |-> <<>>, lz |-> <<>>, insts |-> {}, left |-> <<>>, mi |-> 0, mb |-> 0,
           ls |-> <<>>, sm |-> <<>>, rep |-> <<>>, mf |-> 0, nx |-> 0]

MinFree(S, U) == CHOOSE x \in U : x \notin S /\ \A y \in U : y \notin S => x <= y

Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Without(f, i) == [b \in {c \in DOMAIN f : f[c].i # i} |-> f[b]]   \* the memory of instance i is gone
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* addresses are pairs, as they exceed the integers of TLC
M24 == 16777216
Plus(a, n) == <<a[1] + ((a[2] + n) \div M24), (a[2] + n) % M24>>
Below(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Apart(a, n, b, m) == ~Below(a, Plus(b, m)) \/ ~Below(b, Plus(a, n))
Max2(a, b) == IF a > b THEN a ELSE b

IsLeaf(t) == t.k \in {"lf", "lin", "stk", "mal", "nul"}
Bump(t) == t.k \in {"lin", "stk"}
Round(n) == IF n = 0 THEN 16 ELSE ((n + 15) \div 16) * 16

Has(w) == Len(w.tape) > 0
Hd(w) == Head(w.tape)
Pop(w) == [w EXCEPT !.tape = Tail(@)]

\* a new instance of leaf t; instances created together may be created in any order
TakePlus(t, w) ==
  LET run == {j \in 1..Len(w.tape) : \A k \in 1..j : w.tape[k].k = "+"}
      mine == {j \in run : w.tape[j].l = t.id}
  IN IF mine = {} THEN {}
     ELSE LET j == CHOOSE x \in mine : \A y \in mine : x <= y
          IN { [i |-> w.tape[j].i, w |-> [w EXCEPT !.tape = SubSeq(@, 1, j-1) \o SubSeq(@, j+1, Len(@))]] }

LeafNew(t, w) ==
  IF t.st = "none" THEN { [s |-> 0, w |-> w] }
  ELSE IF Bump(t) /\ ~w.gen
  THEN LET i == w.nx + 1 IN { [s |-> i, w |-> [w EXCEPT !.nx = i, !.refs = Put(@, i, 1), !.ls = Put(@, i, [top |-> 0, used |-> 0, base |-> <<>>, size |-> t.size])]] }
  ELSE IF w.gen
  THEN LET taken == w.insts \cup {w.out[b].i : b \in DOMAIN w.out}   \* blocks may be left behind
           i == MinFree(taken, 1..w.mi)
       IN IF 1..w.mi \subseteq taken THEN {} ELSE
            { [s |-> i, w |-> [w EXCEPT !.refs = Put(@, i, 1), !.insts = @ \cup {i}, !.ls = IF Bump(t) THEN Put(@, i, [top |-> 0, used |-> 0, base |-> <<>>, size |-> t.size]) ELSE @]] }
  ELSE { [s |-> x.i, w |-> [x.w EXCEPT !.refs = Put(@, x.i, 1)]] : x \in {y \in TakePlus(t, w) : y.i \notin DOMAIN w.refs} }

\* dropping a handle of leaf instance i; the last one destroys it
LeafDrop(t, i, w) ==
  IF t.st = "none" THEN {w}
  ELSE IF w.refs[i] > 1 THEN { [w EXCEPT !.refs = Put(@, i, @[i] - 1)] }
  ELSE IF w.gen \/ Bump(t) THEN { [w EXCEPT !.refs = Del(@, i), !.insts = @ \ {i}, !.ls = Del(@, i), !.out = IF Bump(t) THEN Without(@, i) ELSE @] }
  ELSE IF Has(w) /\ Hd(w).k = "-" /\ Hd(w).l = t.id /\ Hd(w).i = i
       THEN { [Pop(w) EXCEPT !.refs = Put(@, i, 0)] } ELSE {}

Inst(t, s, w) == IF t.k \in {"mal", "nul"} THEN 0 ELSE IF t.st = "none" THEN (IF t.id \in DOMAIN w.lz THEN w.lz[t.id] ELSE 0) ELSE s

\* a bump allocator meets a request iff it fits behind what is in use
BumpAlloc(t, i, n, w) ==
  LET b == w.ls[i]
      nb == IF w.gen THEN MinFree(DOMAIN w.out, 1..w.mb) ELSE w.nx + 1
  IN IF n > t.size \/ b.top + Round(n) > t.size THEN { [ok |-> FALSE, x |-> [b |-> 0, of |-> 0], s |-> i, w |-> w] }
     ELSE IF w.gen /\ DOMAIN w.out = 1..w.mb THEN {}
     ELSE { [ok |-> TRUE, x |-> [b |-> nb, of |-> 0], s |-> i,
             w |-> [w EXCEPT !.nx = IF w.gen THEN @ ELSE nb, !.ls = [@ EXCEPT ![i].top = @ + Round(n), ![i].used = @ + Round(n)],
                             !.out = Put(@, nb, [i |-> i, n |-> n, rel |-> b.top, a |-> <<>>])]] }
\* returning the last block makes its space available, and so does having returned all
BumpFree(t, i, x, n, w) ==
  LET b == w.ls[i]  o == w.out[x.b]
      top == IF b.used = Round(n) THEN 0 ELSE IF o.rel + Round(n) = b.top THEN o.rel ELSE b.top
  IN { [s |-> i, w |-> [w EXCEPT !.ls = [@ EXCEPT ![i].top = top, ![i].used = @ - Round(n)], !.out = Del(@, x.b)]] }
\* the system allocator fails when it has to
MalAlloc(s, n, w) ==
  LET nb == IF w.gen THEN MinFree(DOMAIN w.out, 1..w.mb) ELSE w.nx + 1
      fail == [ok |-> FALSE, x |-> [b |-> 0, of |-> 0], s |-> s, w |-> [w EXCEPT !.mf = @ - 1]]
  IN (IF ~w.gen /\ w.mf > 0 THEN {fail} ELSE {})
     \cup (IF n >= Huge \/ (w.gen /\ DOMAIN w.out = 1..w.mb) THEN {}
           ELSE { [ok |-> TRUE, x |-> [b |-> nb, of |-> 0], s |-> s,
                   w |-> [w EXCEPT !.nx = IF w.gen THEN @ ELSE nb, !.out = Put(@, nb, [i |-> 0, n |-> n, rel |-> 0, a |-> <<>>])]] })

LeafAlloc(t, s, n, w) ==
  IF Bump(t) THEN BumpAlloc(t, s, n, w)
  ELSE IF t.k = "mal" THEN MalAlloc(s, n, w)
  ELSE IF t.k = "nul" THEN { [ok |-> FALSE, x |-> [b |-> 0, of |-> 0], s |-> s, w |-> w] }
  ELSE
  LET i == Inst(t, s, w)
      fits == n < Huge /\ (t.max = 0 \/ n <= t.max)
  IN IF w.gen
     THEN LET j == IF t.st = "none" THEN (IF i = 0 THEN 1000 + t.id ELSE i) ELSE i
              w1 == [w EXCEPT !.lz = IF t.st = "none" THEN Put(@, t.id, j) ELSE @]
              can == fits /\ DOMAIN w.out # 1..w.mb
          IN { [ok |-> FALSE, x |-> [b |-> 0, of |-> 0], s |-> s, w |-> [w1 EXCEPT !.bits = Append(@, 0)]] }
             \cup (IF ~can THEN {}
                   ELSE LET b == MinFree(DOMAIN w.out, 1..w.mb)
                        IN { [ok |-> TRUE, x |-> [b |-> b, of |-> 0], s |-> s,
                              w |-> [w1 EXCEPT !.bits = Append(@, 1), !.out = Put(@, b, [i |-> j, n |-> n, rel |-> 0, a |-> <<>>])]] })
     ELSE IF ~Has(w) THEN {}
     ELSE LET c == Hd(w)
              lazy == t.st = "none" /\ i = 0
          IN IF c.k # "a" \/ c.l # t.id \/ (~lazy /\ c.i # i) \/ c.x # n \/ (c.y # 0 /\ (c.y \in DOMAIN w.out \/ ~fits)) THEN {}
             ELSE LET w1 == [Pop(w) EXCEPT !.lz = IF lazy THEN Put(@, t.id, c.i) ELSE @]
                  IN { [ok |-> c.y # 0, x |-> [b |-> c.y, of |-> 0], s |-> s,
                        w |-> IF c.y = 0 THEN w1 ELSE [w1 EXCEPT !.out = Put(@, c.y, [i |-> c.i, n |-> n, rel |-> 0, a |-> <<>>])]] }

\* a leaf only ever gets back what it handed out: same block, same instance, same size, once
LeafFree(t, s, x, n, w) ==
  LET i == Inst(t, s, w)
  IN IF x.of # 0 \/ x.b \notin DOMAIN w.out \/ w.out[x.b].i # i \/ w.out[x.b].n # n THEN {}
     ELSE IF Bump(t) THEN BumpFree(t, i, x, n, w)
     ELSE IF t.k = "mal" THEN { [s |-> s, w |-> [w EXCEPT !.out = Del(@, x.b)]] }
     ELSE IF w.gen THEN { [s |-> s, w |-> [w EXCEPT !.out = Del(@, x.b)]] }
     ELSE IF Has(w) /\ Hd(w).k = "d" /\ Hd(w).l = t.id /\ Hd(w).i = i /\ Hd(w).x = x.b /\ Hd(w).y = 0 /\ Hd(w).z = n
          THEN { [s |-> s, w |-> [Pop(w) EXCEPT !.out = Del(@, x.b)]] } ELSE {}

\* ---------------------------------------------------------------- ownership
RECURSIVE Contains(_, _, _, _)
Contains(t, s, i, w) ==
  CASE t.k = "nul" -> FALSE
    [] IsLeaf(t) -> Inst(t, s, w) = i
    [] t.k \in {"fb", "sg"} -> \E j \in 1..Len(t.l) : Contains(t.l[j], s[j], i, w)
    [] t.k = "fl" -> Contains(t.a, s.a, i, w)
    [] t.k = "ca" -> \E j \in 1..Len(s) : Contains(t.a, s[j].a, i, w)
    [] t.k = "ov" -> Contains(t.a, s.a, i, w)
    [] OTHER -> Contains(t.a, s, i, w)

InstOf(x, w) == IF x.b \in DOMAIN w.out THEN w.out[x.b].i ELSE -1

\* ---------------------------------------------------------------- creation
RECURSIVE Create(_, _), CreateSeq(_, _, _)
Create(t, w) ==
  CASE IsLeaf(t) -> LeafNew(t, w)
    [] t.k \in {"fb", "sg"} -> CreateSeq(t.l, 1, [s |-> <<>>, w |-> w])
    [] t.k = "fl" -> { [s |-> [free |-> {}, a |-> o.s], w |-> o.w] : o \in Create(t.a, w) }
    [] t.k = "ca" -> { [s |-> <<>>, w |-> w] }
    [] t.k = "ov" -> { [s |-> [al |-> 0, cn |-> 0, a |-> o.s], w |-> o.w] : o \in Create(t.a, w) }
    [] OTHER -> Create(t.a, w)
CreateSeq(l, j, o) ==
  IF j > Len(l) THEN {o}
  ELSE UNION { CreateSeq(l, j + 1, [s |-> Append(o.s, c.s), w |-> c.w]) : c \in Create(l[j], o.w) }

\* ---------------------------------------------------------------- returning memory
Segment(t, n) == \* the first allocator whose threshold is not exceeded
  IF \E j \in 1..Len(t.t) : n <= t.t[j] THEN CHOOSE j \in 1..Len(t.t) : n <= t.t[j] /\ \A k \in 1..j-1 : n > t.t[k]
  ELSE Len(t.l)

Pad(n) == IF n >= Huge - 2 * Guard THEN Huge ELSE n + 2 * Guard
Bytes(n, sz) == IF n >= Huge \div sz THEN Huge ELSE n * sz

\* changed bytes around a block are reported by their farthest distance on each side
Changed(x, w) == IF x.b \in DOMAIN w.sm THEN w.sm[x.b] ELSE {}
Far(S) == IF S = {} THEN 0 ELSE CHOOSE d \in S : \A e \in S : e <= d
Inspect(t, x, n, w) ==
  LET before == Far({x.of - o : o \in {y \in Changed(x, w) : x.of - Guard <= y /\ y < x.of}})
      after == Far({o - (x.of + n) + 1 : o \in {y \in Changed(x, w) : x.of + n <= y /\ y < x.of + n + Guard}})
  IN IF before = 0 /\ after = 0 THEN w
     ELSE [w EXCEPT !.rep = Append(@, [k |-> "cor", node |-> t.ov, n |-> n, b |-> before, a |-> after, x |-> x,
                                       p |-> IF x.b \in DOMAIN w.out THEN w.out[x.b].a ELSE <<>>])]
Mend(x, n, w) == IF x.b \notin DOMAIN w.sm THEN w
                 ELSE [w EXCEPT !.sm = [@ EXCEPT ![x.b] = {o \in @ : ~(x.of - Guard <= o /\ o < x.of + n + Guard)}]]
\* what an overflow allocator says at its end
Account(t, s, w) ==
  LET say(k, n) == [k |-> k, node |-> t.ov, n |-> n, b |-> 0, a |-> 0, x |-> [b |-> 0, of |-> 0], p |-> <<>>]
      r == (IF s.al > 0 THEN << say("leak", s.al) >> ELSE IF s.al < 0 THEN << say("frees", -s.al) >> ELSE <<>>)
           \o (IF s.cn > 0 THEN << say("ctor", s.cn) >> ELSE IF s.cn < 0 THEN << say("dtor", -s.cn) >> ELSE <<>>)
  IN [w EXCEPT !.rep = @ \o r]

RECURSIVE Free(_, _, _, _, _), Destroy(_, _, _), DestroyAll(_, _), Release(_, _, _)

Free(t, s, x, n, w) ==
  CASE IsLeaf(t) -> LeafFree(t, s, x, n, w)
    [] t.k = "fb" -> UNION { { [s |-> [s EXCEPT ![j] = o.s], w |-> o.w] : o \in Free(t.l[j], s[j], x, n, w) }
                             : j \in {k \in 1..Len(t.l) : Contains(t.l[k], s[k], InstOf(x, w), w)} }
    [] t.k = "sg" -> LET j == Segment(t, n) IN { [s |-> [s EXCEPT ![j] = o.s], w |-> o.w] : o \in Free(t.l[j], s[j], x, n, w) }
    [] t.k = "fl" -> IF n > t.lo /\ n <= t.hi /\ Contains(t.a, s.a, InstOf(x, w), w) THEN { [s |-> [s EXCEPT !.free = @ \cup {x}], w |-> w] } ELSE {}
    [] t.k = "ca" ->
         UNION { UNION { LET c == s[j].cnt - 1 IN
                         IF c = 0 /\ j # 1
                         THEN { [s |-> SubSeq(s, 1, j-1) \o SubSeq(s, j+1, Len(s)), w |-> w2] : w2 \in Destroy(t.a, o.s, o.w) }
                         ELSE { [s |-> [s EXCEPT ![j] = [cnt |-> c, a |-> o.s]], w |-> o.w] }
                         : o \in Free(t.a, s[j].a, x, n, w) }
                 : j \in {k \in 1..Len(s) : Contains(t.a, s[k].a, InstOf(x, w), w)} }
    [] t.k = "ov" -> { [s |-> [s EXCEPT !.al = @ - n, !.a = o.s], w |-> o.w] : o \in Free(t.a, s.a, [x EXCEPT !.of = @ - Guard], Pad(n), Inspect(t, x, n, w)) }
    [] t.k = "ty" -> Free(t.a, s, x, Bytes(n, t.sz), w)
    [] OTHER -> Free(t.a, s, x, n, w)

\* all free blocks go back to the allocator underneath, in whatever order
Release(t, s, w) ==
  IF s.free = {} THEN { [s |-> s, w |-> w] }
  ELSE LET named == IF ~w.gen /\ Has(w) THEN {x \in s.free : Hd(w).k = "d" /\ Hd(w).x = x.b} ELSE {}
           x == IF named # {} THEN CHOOSE y \in named : TRUE ELSE CHOOSE y \in s.free : \A z \in s.free : y.b <= z.b
       IN UNION { Release(t, [free |-> s.free \ {x}, a |-> o.s], o.w) : o \in Free(t.a, s.a, x, t.hi, w) }

\* the worlds after destroying a composition, with everything it holds returned first
Destroy(t, s, w) ==
  CASE IsLeaf(t) -> LeafDrop(t, s, w)
    [] t.k \in {"fb", "sg"} -> DestroyAll([j \in 1..Len(t.l) |-> [t |-> t.l[j], s |-> s[j]]], w)
    [] t.k = "fl" -> UNION { Destroy(t.a, o.s.a, o.w) : o \in Release(t, s, w) }
    [] t.k = "ca" -> DestroyAll([j \in 1..Len(s) |-> [t |-> t.a, s |-> s[j].a]], w)
    [] t.k = "ov" -> Destroy(t.a, s.a, Account(t, s, w))
    [] t.k = "rf" -> IF w.gen THEN Destroy(t.a, s, w) ELSE { [w EXCEPT !.left = Append(@, [t |-> t.a, s |-> s])] }
    [] OTHER -> Destroy(t.a, s, w)
DestroyAll(q, w) ==
  IF q = <<>> THEN {w}
  ELSE LET named == IF ~w.gen /\ Has(w) THEN {j \in 1..Len(q) : Contains(q[j].t, q[j].s, Hd(w).i, w)} ELSE {}
           j == IF named # {} THEN CHOOSE k \in named : \A m \in named : k >= m ELSE Len(q)
       IN UNION { DestroyAll(SubSeq(q, 1, j-1) \o SubSeq(q, j+1, Len(q)), w1) : w1 \in Destroy(q[j].t, q[j].s, w) }

\* asking for the maximum size may look at an instance made for the purpose
RECURSIVE AskMax(_, _, _), LeafIds(_)
LeafIds(t) == CASE IsLeaf(t) -> {t.id} [] t.k \in {"fb", "sg"} -> UNION { LeafIds(t.l[j]) : j \in 1..Len(t.l) } [] OTHER -> LeafIds(t.a)
AskMax(t, s, w) ==
  CASE IsLeaf(t) -> {w}
    [] t.k \in {"fb", "sg"} ->
         LET RECURSIVE go(_, _)
             go(R, x) == IF w.gen \/ ~Has(x) \/ Hd(x).k # "+" \/ \A j \in R : Hd(x).l \notin LeafIds(t.l[j]) THEN {x}
                         ELSE LET j == CHOOSE i \in R : Hd(x).l \in LeafIds(t.l[i])
                              IN UNION { go(R \ {j}, y) : y \in AskMax(t.l[j], s[j], x) }
         IN go(1..Len(t.l), w)
    [] t.k \in {"fl", "ov"} -> AskMax(t.a, s.a, w)
    [] t.k = "ca" -> IF s = <<>> THEN {w} \cup (IF w.mf > 0 THEN { [w EXCEPT !.mf = @ - 1] } ELSE {}) \cup UNION { UNION { Destroy(t.a, o.s, x) : x \in AskMax(t.a, o.s, o.w) } : o \in Create(t.a, w) } ELSE AskMax(t.a, s[1].a, w)
    [] OTHER -> AskMax(t.a, s, w)

\* ---------------------------------------------------------------- requesting memory
Fail(s, w) == [ok |-> FALSE, x |-> [b |-> 0, of |-> 0], s |-> s, w |-> w]

\* the system has no memory for another instance
NoMemory(s, w) == IF w.mf > 0 THEN { Fail(s, [w EXCEPT !.mf = @ - 1]) } ELSE {}

RECURSIVE Alloc(_, _, _, _), AllocFrom(_, _, _, _, _), Cascade(_, _, _, _)
Alloc(t, s, n, w) ==
  CASE IsLeaf(t) -> LeafAlloc(t, s, n, w)
    [] t.k = "fb" -> AllocFrom(t, 1, s, n, w)
    [] t.k = "sg" -> LET j == Segment(t, n) IN { [o EXCEPT !.s = [s EXCEPT ![j] = o.s]] : o \in Alloc(t.l[j], s[j], n, w) }
    [] t.k = "fl" ->
         IF ~(n > t.lo /\ n <= t.hi) THEN { Fail(s, w) }
         ELSE IF s.free # {} THEN { [ok |-> TRUE, x |-> x, s |-> [s EXCEPT !.free = @ \ {x}], w |-> w] : x \in s.free }
         ELSE { [o EXCEPT !.s = [s EXCEPT !.a = o.s]] : o \in Alloc(t.a, s.a, t.hi, w) }
    [] t.k = "ca" ->
         IF s = <<>>
         THEN \* the first instance may or may not be needed to learn that the request is too large
              (IF t.max # 0 /\ n > t.max THEN { Fail(s, w) } ELSE {})
              \cup NoMemory(s, w)
              \cup UNION { UNION { Cascade(t, << [cnt |-> 0, a |-> o.s] >>, n, w1) : w1 \in AskMax(t.a, o.s, o.w) } : o \in Create(t.a, w) }
         ELSE UNION { Cascade(t, s, n, w1) : w1 \in AskMax(t.a, s[1].a, w) }
    [] t.k = "ov" -> IF Pad(n) >= Huge THEN { Fail(s, w) } \cup { [o EXCEPT !.s = [s EXCEPT !.a = o.s]] : o \in {p \in Alloc(t.a, s.a, Huge, w) : ~p.ok} }
                     ELSE { LET y == [o.x EXCEPT !.of = @ + Guard]
                            IN IF o.ok THEN [o EXCEPT !.x = y, !.s = [s EXCEPT !.al = @ + n, !.a = o.s], !.w = Mend(y, n, @)]
                               ELSE [o EXCEPT !.s = [s EXCEPT !.a = o.s]] : o \in Alloc(t.a, s.a, Pad(n), w) }
    [] t.k = "ty" -> IF Bytes(n, t.sz) >= Huge THEN { Fail(s, w) } \cup Alloc(t.a, s, Huge, w)
                     ELSE Alloc(t.a, s, Bytes(n, t.sz), w)
    [] OTHER -> Alloc(t.a, s, n, w)

\* allocators of the list are tried in order
AllocFrom(t, j, s, n, w) ==
  UNION { LET s1 == [s EXCEPT ![j] = o.s] IN
          IF o.ok \/ j = Len(t.l) THEN { [o EXCEPT !.s = s1] } ELSE AllocFrom(t, j + 1, s1, n, o.w)
          : o \in Alloc(t.l[j], s[j], n, w) }

\* the current instance, then a new one, which is dropped again unless it can meet the request
Cascade(t, s, n, w) ==
  IF t.max # 0 /\ n > t.max THEN { Fail(s, w) }
  ELSE UNION { IF o.ok THEN { [o EXCEPT !.s = [s EXCEPT ![1] = [cnt |-> s[1].cnt + 1, a |-> o.s]]] }
               ELSE LET s1 == [s EXCEPT ![1].a = o.s]
                    IN NoMemory(s1, o.w) \cup UNION { UNION { IF p.ok THEN { [p EXCEPT !.s = << [cnt |-> 1, a |-> p.s] >> \o s1] }
                                       ELSE { Fail(s1, w2) : w2 \in Destroy(t.a, p.s, p.w) }
                                       : p \in Alloc(t.a, c.s, n, c.w) }
                               : c \in Create(t.a, o.w) }
               : o \in Alloc(t.a, s[1].a, n, w) }

\* ---------------------------------------------------------------- construction of objects
\* the outcomes [s, w] of the construct (k = "K") or destroy (k = "k") calls to leaves
RECURSIVE Con(_, _, _, _, _)
Con(t, s, x, k, w) ==
  LET same == { [s |-> s, w |-> w] } IN
  IF ~t.con THEN same
  ELSE CASE IsLeaf(t) -> IF t.k # "lf" \/ w.gen THEN same
                          ELSE IF Has(w) /\ Hd(w).k = k /\ Hd(w).l = t.id /\ Hd(w).i = Inst(t, s, w) /\ Hd(w).x = x.b /\ Hd(w).y = x.of THEN { [s |-> s, w |-> Pop(w)] } ELSE {}
         [] t.k \in {"fb", "sg"} -> UNION { { [s |-> [s EXCEPT ![j] = o.s], w |-> o.w] : o \in Con(t.l[j], s[j], x, k, w) }
                                             : j \in {m \in 1..Len(t.l) : Contains(t.l[m], s[m], InstOf(x, w), w)} }
         [] t.k = "fl" -> { [s |-> [s EXCEPT !.a = o.s], w |-> o.w] : o \in Con(t.a, s.a, x, k, w) }
         [] t.k = "ca" -> UNION { { [s |-> [s EXCEPT ![j].a = o.s], w |-> o.w] : o \in Con(t.a, s[j].a, x, k, w) }
                                  : j \in {m \in 1..Len(s) : Contains(t.a, s[m].a, InstOf(x, w), w)} }
         [] t.k = "ov" -> { [s |-> [s EXCEPT !.cn = IF k = "K" THEN @ + 1 ELSE @ - 1, !.a = o.s], w |-> o.w] : o \in Con(t.a, s.a, x, k, w) }
         [] OTHER -> Con(t.a, s, x, k, w)

\* ---------------------------------------------------------------- copying and moving compositions
\* copies share handle leaves
RECURSIVE CopyOf(_, _, _), CopySeq(_, _, _, _)
CopyOf(t, s, w) ==
  CASE IsLeaf(t) -> IF t.st = "handle" THEN { [s |-> s, w |-> [w EXCEPT !.refs = Put(@, s, @[s] + 1)]] } ELSE { [s |-> s, w |-> w] }
    [] t.k \in {"fb", "sg"} -> CopySeq(t, s, 1, w)
    [] OTHER -> CopyOf(t.a, s, w)
CopySeq(t, s, j, w) ==
  IF j > Len(t.l) THEN { [s |-> s, w |-> w] }
  ELSE UNION { CopySeq(t, s, j + 1, o.w) : o \in CopyOf(t.l[j], s[j], w) }

\* moving leaves an empty composition with handles to the same leaves behind
RECURSIVE MoveOf(_, _, _)
MoveOf(t, s, w) ==  \* [s |-> new, r |-> what remains, w]
  CASE t.k = "lin" -> { [s |-> o.s, r |-> s, w |-> o.w] : o \in LeafNew(t, w) }   \* only when unused
    [] IsLeaf(t) -> { [s |-> s, r |-> s, w |-> IF t.st = "handle" THEN [w EXCEPT !.refs = Put(@, s, @[s] + 1)] ELSE w] }
    [] t.k \in {"fb", "sg"} ->
         LET RECURSIVE go(_, _)
             go(j, o) == IF j > Len(t.l) THEN {o}
                         ELSE UNION { go(j + 1, [s |-> Append(o.s, p.s), r |-> Append(o.r, p.r), w |-> p.w]) : p \in MoveOf(t.l[j], s[j], o.w) }
         IN go(1, [s |-> <<>>, r |-> <<>>, w |-> w])
    [] t.k = "fl" -> { [s |-> [free |-> s.free, a |-> o.s], r |-> [free |-> {}, a |-> o.r], w |-> o.w] : o \in MoveOf(t.a, s.a, w) }
    [] t.k = "ca" -> { [s |-> s, r |-> <<>>, w |-> w] }
    [] OTHER -> MoveOf(t.a, s, w)

\* assigning over a composition first returns what the old one holds
RECURSIVE MoveAssign(_, _, _, _)
MoveAssign(t, s, r, w) ==  \* s := move(r)
  CASE t.k = "lin" -> { [s |-> s, r |-> r, w |-> [w EXCEPT !.ls = [@ EXCEPT ![s].top = 0, ![s].used = 0], !.out = Without(@, s)]] }   \* only when unused
    [] IsLeaf(t) -> IF t.st # "handle" THEN { [s |-> s, r |-> r, w |-> w] }
                     ELSE LET w1 == [w EXCEPT !.refs = Put(@, r, @[r] + 1)]
                          IN { [s |-> r, r |-> r, w |-> w2] : w2 \in LeafDrop(t, s, w1) }
    [] t.k \in {"fb", "sg"} ->
         LET RECURSIVE go(_, _)
             go(j, o) == IF j > Len(t.l) THEN {o}
                         ELSE UNION { go(j + 1, [s |-> Append(o.s, p.s), r |-> Append(o.r, p.r), w |-> p.w]) : p \in MoveAssign(t.l[j], s[j], r[j], o.w) }
         IN go(1, [s |-> <<>>, r |-> <<>>, w |-> w])
    [] t.k = "fl" -> UNION { { [s |-> [free |-> r.free, a |-> p.s], r |-> [free |-> {}, a |-> p.r], w |-> p.w] : p \in MoveAssign(t.a, o.s.a, r.a, o.w) }
                             : o \in Release(t, s, w) }
    [] t.k = "ca" -> { [s |-> r, r |-> <<>>, w |-> w1] : w1 \in Destroy(t, s, w) }
    [] OTHER -> MoveAssign(t.a, s, r, w)

\* ---------------------------------------------------------------- the system: variables holding compositions
(* st.tree  the tree
   st.vars  variable -> [m, r]   m = "s": r is the state; "h": handle of heap[r]; "x": moved from
   st.heap  shared compositions: number -> [cnt, s]
   st.user  slot -> [b, of, n, v, u, o]  u: obtained through a typed allocator converted to another type; o: holds an object (when generating)
   st.lost  blocks whose user forgot them
   st.rep   variable -> smallest maximum size reported so far (Huge: none);  st.met: largest request met *)
RECURSIVE Root(_)
Root(t) == IF t.k = "ty" THEN Root(t.a) ELSE IF t.k \in {"sh", "rf", "gl"} THEN t.k ELSE "val"
Persists(st) == Root(st.tree) = "gl"
Refers(st) == Root(st.tree) \in {"rf", "gl"}
IsTy(t) == t.k = "ty"
As(t, u) == IF u THEN [t EXCEPT !.sz = t.alt] ELSE t

Init0(t) ==
  LET none == [tree |-> t, vars |-> <<>>, heap |-> <<>>, user |-> <<>>, lost |-> {}, w |-> World0, rep |-> Huge, met |-> -1]
  IN IF Root(t) # "gl" THEN {none}
     ELSE { [none EXCEPT !.heap = Put(<<>>, 1, [cnt |-> 0, s |-> o.s]), !.w = o.w] : o \in Create(t, World0) }

StateOf(st, v) == IF st.vars[v].m = "h" THEN st.heap[st.vars[v].r].s ELSE st.vars[v].r
Usable(st, v) == v \in DOMAIN st.vars /\ st.vars[v].m # "x"
WithState(st, v, s, w) ==
  IF st.vars[v].m = "h" THEN [st EXCEPT !.heap = [@ EXCEPT ![st.vars[v].r].s = s], !.w = w]
  ELSE [st EXCEPT !.vars = [@ EXCEPT ![v].r = s], !.w = w]

New(st, v) ==
  IF v \in DOMAIN st.vars THEN {}
  ELSE IF Root(st.tree) = "val" THEN { [st EXCEPT !.vars = Put(@, v, [m |-> "s", r |-> o.s]), !.w = o.w] : o \in Create(st.tree, st.w) }
  ELSE IF Root(st.tree) = "gl" THEN { [st EXCEPT !.vars = Put(@, v, [m |-> "h", r |-> 1]), !.heap = [@ EXCEPT ![1].cnt = @ + 1]] }
  ELSE LET h == MinFree(DOMAIN st.heap, 1..20)
       IN { [st EXCEPT !.vars = Put(@, v, [m |-> "h", r |-> h]), !.heap = Put(@, h, [cnt |-> 1, s |-> o.s]), !.w = o.w] : o \in Create(st.tree, st.w) }

\* dropping a handle of a shared composition; a composition that is merely referred to stays
DropHandle(st, h) ==
  LET c == st.heap[h].cnt - 1 IN
  IF c > 0 \/ Persists(st) THEN { [st EXCEPT !.heap = [@ EXCEPT ![h].cnt = c]] }
  ELSE { [st EXCEPT !.heap = Del(@, h), !.w = w] : w \in Destroy(st.tree, st.heap[h].s, st.w) }

DelVar(st, v) ==
  IF v \notin DOMAIN st.vars THEN {}
  ELSE LET x == st.vars[v]  st1 == [st EXCEPT !.vars = Del(@, v)]
       IN CASE x.m = "x" -> {st1}
            [] x.m = "h" -> DropHandle(st1, x.r)
            [] OTHER -> { [st1 EXCEPT !.w = w] : w \in Destroy(st.tree, x.r, st.w) }

CopyVar(st, v, u) ==
  IF v \in DOMAIN st.vars \/ u \notin DOMAIN st.vars THEN {}
  ELSE LET x == st.vars[u] IN
       IF x.m = "x" THEN { [st EXCEPT !.vars = Put(@, v, x)] }
       ELSE IF x.m = "h" THEN { [st EXCEPT !.vars = Put(@, v, x), !.heap = [@ EXCEPT ![x.r].cnt = @ + 1]] }
       ELSE { [st EXCEPT !.vars = Put(@, v, [m |-> "s", r |-> o.s]), !.w = o.w] : o \in CopyOf(st.tree, x.r, st.w) }

MoveVar(st, v, u) ==
  IF v \in DOMAIN st.vars \/ u \notin DOMAIN st.vars THEN {}
  ELSE IF IsTy(st.tree) \/ Refers(st) \/ st.vars[u].m = "x" THEN CopyVar(st, v, u)   \* typed allocators and references never give up their state
  ELSE LET x == st.vars[u] IN
       IF x.m = "h" THEN { [st EXCEPT !.vars = Put(Put(@, v, x), u, [m |-> "x", r |-> 0])] }
       ELSE { [st EXCEPT !.vars = Put(Put(@, v, [m |-> "s", r |-> o.s]), u, [m |-> "s", r |-> o.r]), !.w = o.w,
                         !.user = [k \in DOMAIN @ |-> IF @[k].v = u /\ ~IsLeaf(st.tree) THEN [@[k] EXCEPT !.v = v] ELSE @[k]]] : o \in MoveOf(st.tree, x.r, st.w) }

CopyAssign(st, v, u) ==
  IF v \notin DOMAIN st.vars \/ u \notin DOMAIN st.vars THEN {}
  ELSE IF v = u THEN {st}
  ELSE LET x == st.vars[v]  y == st.vars[u] IN
       IF y.m = "x" THEN LET st1 == [st EXCEPT !.vars = [@ EXCEPT ![v] = y]] IN IF x.m = "x" THEN {st1} ELSE DropHandle(st1, x.r)
       ELSE IF y.m = "h"
       THEN LET st1 == [st EXCEPT !.vars = [@ EXCEPT ![v] = y], !.heap = [@ EXCEPT ![y.r].cnt = @ + 1]]
            IN IF x.m = "x" THEN {st1} ELSE DropHandle(st1, x.r)
       ELSE { [st EXCEPT !.vars = [@ EXCEPT ![v].r = o.s], !.w = o.w] : o \in MoveAssign(st.tree, x.r, y.r, st.w) }

MoveAssignVar(st, v, u) ==
  IF v \notin DOMAIN st.vars \/ u \notin DOMAIN st.vars THEN {}
  ELSE IF v = u THEN {st}
  ELSE IF IsTy(st.tree) \/ Refers(st) \/ st.vars[u].m = "x" THEN CopyAssign(st, v, u)
  ELSE LET x == st.vars[v]  y == st.vars[u] IN
       IF y.m = "h"
       THEN LET st1 == [st EXCEPT !.vars = [@ EXCEPT ![v] = y, ![u] = [m |-> "x", r |-> 0]]]
            IN IF x.m = "x" THEN {st1} ELSE DropHandle(st1, x.r)
       ELSE { [st EXCEPT !.vars = [@ EXCEPT ![v].r = o.s, ![u].r = o.r], !.w = o.w,
                         !.user = [k \in DOMAIN @ |-> IF @[k].v = u THEN [@[k] EXCEPT !.v = v] ELSE @[k]]] : o \in MoveAssign(st.tree, x.r, y.r, st.w) }

\* outcomes of a request: [st, ok, x]
Request(st, v, slot, n, u) ==
  IF ~Usable(st, v) \/ slot \in DOMAIN st.user THEN {}
  ELSE { LET st1 == WithState(st, v, o.s, o.w)
         IN [ok |-> o.ok, x |-> o.x,
             st |-> IF ~o.ok THEN st1
                    ELSE [st1 EXCEPT !.user = Put(@, slot, [b |-> o.x.b, of |-> o.x.of, n |-> n, v |-> v, u |-> u, o |-> FALSE]),
                                     !.met = IF ~u /\ n > @ THEN n ELSE @]]
         : o \in Alloc(As(st.tree, u), StateOf(st, v), n, st.w) }

\* the address p that the request returned: aligned, where the block is expected, and apart from all others
Bind(o, p) ==
  LET st == o.st  w == st.w  b == o.x.b  blk == w.out[b]
      a == Plus(p, -o.x.of)
      i == blk.i
      real == i \in DOMAIN w.ls
      st1 == [st EXCEPT !.w.out = [@ EXCEPT ![b].a = a]]
      base == Plus(a, -blk.rel)
  IN IF p[2] % 16 # 0 THEN {}
     ELSE IF blk.a # <<>> THEN (IF blk.a = a THEN {st} ELSE {})
     ELSE IF \E c \in DOMAIN w.out \ {b} : w.out[c].a # <<>> /\ ~Apart(a, Max2(blk.n, 1), w.out[c].a, Max2(w.out[c].n, 1)) THEN {}
     ELSE IF ~real THEN {st1}
     ELSE IF w.ls[i].base # <<>> THEN (IF w.ls[i].base = base THEN {st1} ELSE {})
     ELSE IF \E j \in DOMAIN w.ls : w.ls[j].base # <<>> /\ ~Apart(base, w.ls[i].size, w.ls[j].base, w.ls[j].size) THEN {}
     ELSE { [st1 EXCEPT !.w.ls = [@ EXCEPT ![i].base = base]] }

\* a byte next to a block is written (at < 0: before it, at >= 0: after its end)
Smash(st, slot, at, good) ==
  IF slot \notin DOMAIN st.user THEN {}
  ELSE LET u == st.user[slot]
           bytes == IF IsTy(st.tree) THEN Bytes(u.n, As(st.tree, u.u).sz) ELSE u.n
           o == IF at < 0 THEN u.of + at ELSE u.of + bytes + at
           old == Changed(u, st.w)
       IN { [st EXCEPT !.w.sm = Put(@, u.b, IF good THEN old \ {o} ELSE old \cup {o})] }

Return(st, v, slot) ==
  IF ~Usable(st, v) \/ slot \notin DOMAIN st.user THEN {}
  ELSE LET u == st.user[slot] IN
       { WithState([st EXCEPT !.user = Del(@, slot)], v, o.s, o.w) : o \in Free(As(st.tree, u.u), StateOf(st, v), [b |-> u.b, of |-> u.of], u.n, st.w) }

Forget(st, slot) == IF slot \notin DOMAIN st.user THEN {} ELSE { [st EXCEPT !.user = Del(@, slot), !.lost = @ \cup {st.user[slot].b}] }

\* replacing the global allocator by a fresh one
SetGlobal(st, v) ==
  IF ~Usable(st, v) \/ Root(st.tree) # "gl" THEN {}
  ELSE UNION { UNION { { [st EXCEPT !.heap = [@ EXCEPT ![1].s = m.s], !.w = w2] : w2 \in Destroy(st.tree, m.r, m.w) }
                       : m \in MoveAssign(st.tree, StateOf(st, v), o.s, o.w) } : o \in Create(st.tree, st.w) }

\* whether allocators may be / have to be reported equal
RECURSIVE MayEqual(_, _, _), MustEqual(_, _, _)
MayEqual(t, a, b) ==
  CASE IsLeaf(t) -> t.st = "none" \/ a = b
    [] t.k \in {"fb", "sg"} -> \A j \in 1..Len(t.l) : MayEqual(t.l[j], a[j], b[j])
    [] t.k \in {"fl", "ov"} -> MayEqual(t.a, a.a, b.a)
    [] t.k = "ca" -> a = <<>> /\ b = <<>>
    [] OTHER -> MayEqual(t.a, a, b)
MustEqual(t, a, b) ==
  CASE t.k \in {"fb", "sg"} -> \A j \in 1..Len(t.l) : MustEqual(t.l[j], a[j], b[j])
    [] t.k \in {"fl", "ca"} -> FALSE
    [] t.k = "ov" -> MustEqual(t.a, a.a, b.a)
    [] IsLeaf(t) -> MayEqual(t, a, b)
    [] OTHER -> MustEqual(t.a, a, b)
EqualOK(st, v, u, q) ==
  LET x == st.vars[v]  y == st.vars[u]
      same == v = u \/ (x.m = "h" /\ y.m = "h" /\ x.r = y.r)
  IN /\ same => q
     /\ (q /\ ~same) => x.m = "s" /\ y.m = "s" /\ MayEqual(st.tree, x.r, y.r)
     /\ (x.m = "s" /\ y.m = "s" /\ MustEqual(st.tree, x.r, y.r)) => q

Owns(st, v, slot) == slot \in DOMAIN st.user /\ Contains(st.tree, StateOf(st, v), InstOf(st.user[slot], st.w), st.w)

\* only wrappers, so that what they report is known exactly
RECURSIVE Plain(_)
Plain(t) == IF IsLeaf(t) THEN TRUE ELSE IF t.k \in {"sh", "th", "rf", "gl", "ty"} THEN Plain(t.a) ELSE FALSE

\* ---------------------------------------------------------------- what holds in every reachable state
RECURSIVE Held(_, _)
Held(t, s) == \* blocks in free lists
  CASE IsLeaf(t) -> {}
    [] t.k \in {"fb", "sg"} -> UNION { Held(t.l[j], s[j]) : j \in 1..Len(t.l) }
    [] t.k = "fl" -> {x.b : x \in s.free} \cup Held(t.a, s.a)
    [] t.k = "ca" -> UNION { Held(t.a, s[j].a) : j \in 1..Len(s) }
    [] t.k = "ov" -> Held(t.a, s.a)
    [] OTHER -> Held(t.a, s)
States(st) == { st.vars[v].r : v \in {u \in DOMAIN st.vars : st.vars[u].m = "s"} } \cup { st.heap[h].s : h \in DOMAIN st.heap }
AllHeld(st) == UNION { Held(st.tree, s) : s \in States(st) } \cup UNION { Held(st.w.left[j].t, st.w.left[j].s) : j \in 1..Len(st.w.left) }
UserBlocks(st) == { st.user[k].b : k \in DOMAIN st.user }

RECURSIVE CascadeOK(_, _, _, _)
CascadeOK(t, s, st, outer) ==  \* every instance knows how many of its blocks are in use
  CASE IsLeaf(t) -> TRUE
    [] t.k = "ov" -> CascadeOK(t.a, s.a, st, outer)
    [] t.k \in {"fb", "sg"} -> \A j \in 1..Len(t.l) : CascadeOK(t.l[j], s[j], st, outer)
    [] t.k = "fl" -> CascadeOK(t.a, s.a, st, outer \cup {x.b : x \in s.free})
    [] t.k = "ca" -> \A j \in 1..Len(s) :
         /\ CascadeOK(t.a, s[j].a, st, outer)
         /\ s[j].cnt = Cardinality({b \in (UserBlocks(st) \cup outer \cup st.lost) \cap DOMAIN st.w.out :
                                      Contains(t.a, s[j].a, st.w.out[b].i, st.w)})
    [] OTHER -> CascadeOK(t.a, s, st, outer)

\* instances that cascading allocators keep
RECURSIVE Kept(_, _)
Kept(t, s) ==
  CASE IsLeaf(t) -> 0
    [] t.k \in {"fb", "sg"} -> LET RECURSIVE sum(_)
                                   sum(j) == IF j = 0 THEN 0 ELSE sum(j - 1) + Kept(t.l[j], s[j])
                               IN sum(Len(t.l))
    [] t.k \in {"fl", "ov"} -> Kept(t.a, s.a)
    [] t.k = "ca" -> LET RECURSIVE sum(_)
                         sum(j) == IF j = 0 THEN 0 ELSE sum(j - 1) + 1 + Kept(t.a, s[j].a)
                     IN sum(Len(s))
    [] OTHER -> Kept(t.a, s)

\* what a bump allocator has handed out lies within it, apart and below what is free
Bumped(st) == \A i \in DOMAIN st.w.ls :
  LET l == st.w.ls[i]  B == {b \in DOMAIN st.w.out : st.w.out[b].i = i} IN
  /\ 0 <= l.top /\ l.top <= l.size /\ 0 <= l.used /\ l.used <= l.top /\ (l.used = 0 => l.top = 0)
  /\ \A b \in B : st.w.out[b].rel >= 0 /\ st.w.out[b].rel % 16 = 0 /\ st.w.out[b].rel + Round(st.w.out[b].n) <= l.top
  /\ \A a, b \in B : a # b => st.w.out[a].rel + Round(st.w.out[a].n) <= st.w.out[b].rel \/ st.w.out[b].rel + Round(st.w.out[b].n) <= st.w.out[a].rel
Bases(st) == \A i \in DOMAIN st.w.ls : st.w.ls[i].base = <<>> \/ st.w.ls[i].base[2] % 16 = 0
Disjoint(st) == \A a, b \in DOMAIN st.user : a # b => st.user[a].b # st.user[b].b
NotHeld(st) == UserBlocks(st) \cap AllHeld(st) = {}
Conserved(st) == DOMAIN st.w.out = UserBlocks(st) \cup AllHeld(st) \cup (st.lost \cap DOMAIN st.w.out)
Fits(st) == \A k \in DOMAIN st.user : LET u == st.user[k] IN u.b \in DOMAIN st.w.out /\ u.of >= 0
Cascades(st) == \A s \in States(st) : CascadeOK(st.tree, s, st, {})
GoneIsReturned(st) == (DOMAIN st.vars = {} /\ st.w.left = <<>> /\ DOMAIN st.heap = {}) => DOMAIN st.w.out \subseteq st.lost
=============================================================================
