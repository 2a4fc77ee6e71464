---------------------------- MODULE PackedTrace ----------------------------
(* Validates histories recorded from the real packed pointers against Packed. *)
EXTENDS Packed, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Cfgs == JsonDeserialize(IOEnv.CFGS)      \* [bits, free]
VARIABLES tid, l, q
vars == <<tid, l, q>>
C == [bits |-> Cfgs[Traces[tid].cfg].bits, free |-> Cfgs[Traces[tid].cfg].free, lb |-> 16, len |-> 4]

\* read with integers of several widths, all of which can hold it
Looks(s, o) == /\ o.p = s.p /\ \A i \in 1..Len(o.n) : o.n[i] = s.n
               /\ (s.p # Zero(4) => o.b) /\ (s.p = Zero(4) /\ s.n = Zero(4) => ~o.b)
Next == /\ l \in 1..Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
               a == [op |-> e.e, v |-> e.v, w |-> e.w, p |-> e.p, n |-> e.n]
               r == Do(C, q, a)
               ok == /\ e.e # "crash" /\ Pre(C, q, a)
                     /\ DOMAIN r = {e.obs[i].v : i \in 1..Len(e.obs)}
                     /\ \A i \in 1..Len(e.obs) : Looks(r[e.obs[i].v], e.obs[i])
           IN IF e.e = "end" THEN q' = q /\ l' = l + 1 /\ PrintT(<<"ACCEPT", tid>>)
              ELSE IF e.e = "crash" THEN PrintT(<<"REJECT", tid, l>>) /\ q' = q /\ l' = -1
              ELSE IF ~ok THEN PrintT(<<"REJECT", tid, l>>) /\ q' = q /\ l' = -1
              ELSE q' = r /\ l' = l + 1
        /\ UNCHANGED tid
Init == tid \in 1..Len(Traces) /\ l = 1 /\ q = <<>>
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
