-------------------------------- MODULE Life --------------------------------
(* Lifetimes of objects.  f: object -> "v" (it has its value) or "m" (it was moved from).
   A record of what happened to objects is a flat sequence of triples code, object, other:
     1 constructed    2 copied from other   3 moved from other    4 copy assigned from other   5 move assigned from other
     6 destroyed      7 its value was used  8 its memory was used for another one while it was alive
   An object is -1 when none lives at the address in question. *)
EXTENDS Integers, Sequences, TLC

LPut(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
LDel(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

RECURSIVE LifeDo(_, _, _)
LifeDo(f, q, j) ==  \* {} or the one outcome
  IF j > Len(q) THEN {f}
  ELSE LET c == q[j]  a == q[j + 1]  b == q[j + 2]
           alive(x) == x \in DOMAIN f
           good(x) == x \in DOMAIN f /\ f[x] = "v"
       IN CASE c = 1 -> IF alive(a) THEN {} ELSE LifeDo(LPut(f, a, "v"), q, j + 3)
            [] c = 2 -> IF alive(a) \/ ~good(b) THEN {} ELSE LifeDo(LPut(f, a, "v"), q, j + 3)
            [] c = 3 -> IF alive(a) \/ ~good(b) THEN {} ELSE LifeDo(LPut(LPut(f, a, "v"), b, "m"), q, j + 3)
            [] c = 4 -> IF ~alive(a) \/ ~good(b) THEN {} ELSE LifeDo(LPut(f, a, "v"), q, j + 3)
            [] c = 5 -> IF ~alive(a) \/ ~good(b) THEN {} ELSE LifeDo(IF a = b THEN f ELSE LPut(LPut(f, a, "v"), b, "m"), q, j + 3)
            [] c = 6 -> IF ~alive(a) THEN {} ELSE LifeDo(LDel(f, a), q, j + 3)
            [] c = 7 -> IF ~good(a) THEN {} ELSE LifeDo(f, q, j + 3)
            [] OTHER -> {}
=============================================================================
