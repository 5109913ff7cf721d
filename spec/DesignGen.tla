----------------------------- MODULE DesignGen -----------------------------
(***************************************************************************)
(* Test generation: the environment acts only when the client is at rest,  *)
(* and every transition of the resulting graph (one shortest path to its   *)
(* source, followed by the action) is written as a script, to be replayed  *)
(* into the real code.                                                     *)
(***************************************************************************)
EXTENDS MCDesign, Json, IOUtils

VARIABLE path

A(o, a, b, k) == [o |-> o, a |-> a, b |-> b, k |-> k]

GInit == /\ Init
         /\ path = <<A("cfg", Batch, Lim, ""), A("dial", 0, IF gen[1].st = "open" THEN 1 ELSE 0, "")>>

Say(a) == /\ path' = Append(path, a)
          /\ PrintT("SCRIPT " \o ToJson(path'))

GInternal == /\ Internal
             /\ path' = IF Len(gen') > Len(gen)
                        THEN Append(path, A("dial", Len(gen), IF gen'[Len(gen')].st = "open" THEN 1 ELSE 0, "")) ELSE path

LastKind(g) == gen'[g + 1].ans[Len(gen'[g + 1].ans)].k

GEnv == /\ ~ENABLED Internal
        /\ \/ \E p \in Callers : CallBegin(p) /\ Say(A("begin", p, Prog[p][call[p].s], ""))
           \/ Close1 /\ Say(A("close", 0, 0, ""))
           \/ \E g \in 0..MaxFaults : Answer(g) /\ Say(A("ans", g, 0, LastKind(g)))
           \/ \E g \in 0..MaxFaults : Kill(g) /\ Say(A("kill", g, 0, ""))
           \/ RetryElapsed /\ Say(A("retry", 0, 0, ""))

GNext == GInternal \/ GEnv
GSpec == GInit /\ [][GNext]_<<vars, path>>
GView == <<call, bat, sb, inp, lng, wrc, rdc, snd, rb, rcv, rbuf, rconn, gen, cur, sclosed, mut, rec, cl, faults, now>>
=============================================================================
