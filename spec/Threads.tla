------------------------------ MODULE Threads ------------------------------
(* Handles of shared, locked allocators used by several threads: what an operation means, however the steps of
   different threads are interleaved.

   s = [h, ar, op, in, b]
     h:  handle -> [ar, may]: the allocator ("arena") it refers to, 0 once it was moved from; then it may
         still refer to any of some
     ar: arena -> "alive" or "gone"
     op: thread -> the operation it is in
     in: {<<thread, arena>>}: who is inside of a wrapped allocator
     b:  live block -> [ar, n]
   A handle that is being dropped or assigned to does not count as referring any more from the start of that
   operation, nor does a block that is returned count as live; what is copied refers only from its end. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [o |-> "", h |-> 0, k |-> 0, s |-> 0, n |-> 0, old |-> {}]
ThStart(T) == [h |-> <<>>, ar |-> <<>>, op |-> [t \in T |-> None], in |-> {}, b |-> <<>>]
PutF(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
DelF(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Held(s) == {s.h[x].ar : x \in DOMAIN s.h} \ {0}
Maybe(s) == Held(s) \cup UNION {s.h[x].may : x \in DOMAIN s.h}

\* an operation begins; s unchanged if this is not allowed: [ok, s]
Beg(s, t, a) ==
  LET has(x) == x \in DOMAIN s.h /\ s.h[x].ar # 0
      ok == /\ s.op[t] = None
            /\ CASE a.o = "mk" -> a.h \notin DOMAIN s.h
                 [] a.o \in {"cp", "mv"} -> has(a.h) /\ a.k \notin DOMAIN s.h
                 [] a.o \in {"ca", "ma"} -> has(a.h) /\ a.k \in DOMAIN s.h
                 [] a.o = "dr" -> a.h \in DOMAIN s.h
                 [] a.o \in {"eq", "ne"} -> has(a.h) /\ has(a.k)
                 [] a.o = "de" -> has(a.h) /\ a.k \in DOMAIN s.b /\ s.b[a.k] = [ar |-> s.h[a.h].ar, n |-> a.n]
                 [] OTHER -> has(a.h)
      \* assigning a handle to itself changes nothing; the source of an assignment keeps its arena alive
      h == CASE a.o = "dr" -> DelF(s.h, a.h)
             [] a.o \in {"ca", "ma"} /\ a.h # a.k -> DelF(s.h, a.k)
             [] OTHER -> s.h
      old == IF a.o = "ma" /\ a.k \in DOMAIN s.h THEN ({s.h[a.k].ar} \cup s.h[a.k].may) \ {0} ELSE {}
  IN [ok |-> ok, s |-> [s EXCEPT !.op[t] = [a EXCEPT !.old = old], !.h = h, !.b = IF a.o = "de" THEN DelF(@, a.k) ELSE @]]

\* it ends with a result, a block and whether that overlaps another
End(s, t, r, b, ov, cfg) ==
  LET a == s.op[t]
      g == [s EXCEPT !.op[t] = None]
      src == s.h[a.h]
      same == s.h[a.h].ar = s.h[a.k].ar
      Bit(x) == IF x THEN 1 ELSE 0
  IN CASE a.o = "" -> [ok |-> FALSE, s |-> s]
       [] a.o = "mk" -> [ok |-> r \in DOMAIN s.ar /\ s.ar[r] = "alive" /\ r \notin Maybe(s), s |-> [g EXCEPT !.h = PutF(@, a.h, [ar |-> r, may |-> {}])]]
       [] a.o \in {"cp", "ca"} -> [ok |-> TRUE, s |-> [g EXCEPT !.h = PutF(@, a.k, src)]]
       [] a.o \in {"mv", "ma"} -> [ok |-> TRUE, s |-> [g EXCEPT !.h = PutF(PutF(@, a.k, src), a.h, [ar |-> 0, may |-> ({src.ar} \cup a.old) \ {0}])]]
       [] a.o = "al" -> [ok |-> ov = 0 /\ (b = 0 => ~cfg.full) /\ b \notin DOMAIN s.b, s |-> IF b = 0 THEN g ELSE [g EXCEPT !.b = PutF(@, b, [ar |-> src.ar, n |-> a.n])]]
       [] a.o = "ow" -> [ok |-> r = 1, s |-> g]                          \* only asked about the handle's own blocks
       [] a.o = "mx" -> [ok |-> cfg.max \in {0, r}, s |-> g]
       [] a.o = "eq" -> [ok |-> r = Bit(same), s |-> g]
       [] a.o = "ne" -> [ok |-> r = Bit(~same), s |-> g]
       [] OTHER -> [ok |-> TRUE, s |-> g]

\* inside of the wrapped allocator: alone, and only while it lives
InOk(s, t, al) == al \in DOMAIN s.ar /\ s.ar[al] = "alive" /\ \A p \in s.in : p[2] # al
Enter(s, t, al) == [ok |-> InOk(s, t, al), s |-> [s EXCEPT !.in = @ \cup {<<t, al>>}]]
Leave(s, t, al) == [ok |-> <<t, al>> \in s.in, s |-> [s EXCEPT !.in = @ \ {<<t, al>>}]]
Born(s, t, al) == [ok |-> al \notin DOMAIN s.ar, s |-> [s EXCEPT !.ar = PutF(@, al, "alive")]]
\* destroyed once, when nothing refers to it
Gone(s, t, al) == [ok |-> al \in DOMAIN s.ar /\ s.ar[al] = "alive" /\ al \notin Held(s) /\ \A p \in s.in : p[2] # al,
                   s |-> [s EXCEPT !.ar[al] = "gone"]]
\* whenever no operation runs, exactly what is referred to is alive
Quiet(s) == (\A t \in DOMAIN s.op : s.op[t] = None) => \A al \in DOMAIN s.ar : (al \in Held(s) => s.ar[al] = "alive") /\ (al \notin Maybe(s) => s.ar[al] = "gone")
=============================================================================
