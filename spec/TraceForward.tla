------------------------------ MODULE TraceForward ------------------------------
(* Validation of recorded runs of forwardSpansToChannels against Forward:       *)
(* give, conv, recv (a target receives), final (what each target holds, read    *)
(* again at the end).                                                           *)
EXTENDS Forward, Json, IOUtils, TLC

Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

Apply(s, e) ==
  CASE e.e = "give" -> StepGive(s, e.spans)
    [] e.e = "conv" -> StepConvert(s, e.n, ~e.err /\ ~e.id0 /\ ~e.tr0, e.v)
    [] e.e = "recv" -> StepReceive(s, e.x, e.vals)
    [] e.e = "final" -> IF Finished(s) /\ \A x \in DOMAIN e.held :
                             SelectSeq(e.held[x], LAMBDA t : t # <<>>) = All(s)
                        THEN {s} ELSE {}
    [] OTHER -> {}

VARIABLES k, l, bel
vars == <<k, l, bel>>
Init == k \in DOMAIN Logs /\ l = 1 /\ bel = { Start(1..Logs[k].targets) }
Next == /\ l <= Len(Logs[k].ev)
        /\ bel # {}
        /\ bel' = UNION { Apply(s, Logs[k].ev[l]) : s \in bel }
        /\ l' = l + 1
        /\ k' = k
        /\ bel' = {} => PrintT(<<"REJECT", Logs[k].id, l>>)
Spec == Init /\ [][Next]_vars
=================================================================================
