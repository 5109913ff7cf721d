--------------------------- MODULE ContractTrace ---------------------------
(* Behaviours recorded from the real code, checked against Contract.       *)
EXTENDS Contract, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, m
vars == <<tid, l, m>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ m = Init0

Next == /\ l <= Len(Traces[tid].ev)
        /\ m' = Step(m, Traces[tid].ev[l])
        /\ l' = l + 1
        /\ tid' = tid
        /\ IF m'.viol # m.viol THEN PrintT("VIOL " \o ToString(<<Traces[tid].id, l, m'.viol \ m.viol>>)) ELSE TRUE

Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
