-------------------------------- MODULE Mem --------------------------------
(* Accounting for the memory that containers obtain: block -> [n, al], the size asked for and the allocator
   that provided it.  A record of what was asked of allocators is a sequence of [k, b, n, al, lv]: k is "a" or
   "d", b the block (0: null, -1: none that is known to be live), lv the number of objects alive in it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE MemDo(_, _, _)
MemDo(m, q, j) ==  \* {} or the one outcome
  IF j > Len(q) THEN {m}
  ELSE LET e == q[j] IN
       IF e.k = "a" THEN IF e.b <= 0 \/ e.b \in DOMAIN m THEN {}
                         ELSE MemDo([y \in DOMAIN m \cup {e.b} |-> IF y = e.b THEN [n |-> e.n, al |-> e.al] ELSE m[y]], q, j + 1)
       ELSE IF e.b = 0 THEN IF e.n = 0 THEN MemDo(m, q, j + 1) ELSE {}
       ELSE IF e.b \in DOMAIN m /\ m[e.b].n = e.n /\ m[e.b].al = e.al /\ e.lv = 0
            THEN MemDo([y \in DOMAIN m \ {e.b} |-> m[y]], q, j + 1) ELSE {}
=============================================================================
