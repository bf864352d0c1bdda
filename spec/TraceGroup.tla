-------------------------------- MODULE TraceGroup --------------------------------
(* Validation of recorded runs of balance.Consume in several members of a real       *)
(* group of sarama's, with a cluster of the harness.                                 *)
EXTENDS Group, Json, IOUtils
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

Apply(s, e) ==
  CASE e.e = "publish" -> StepPublish(s, e.p, e.good)
    [] e.e = "retain" -> StepRetain(s, e.p, e.n)
    [] e.e = "join" -> StepJoin(s, e.m)
    [] e.e = "claim" -> StepClaim(s, e.m, e.p)
    [] e.e = "call" -> StepCall(s, e.m, e.p, e.n)
    [] e.e = "return" -> StepReturn(s, e.m, e.p, e.n)
    [] e.e = "commit" -> StepCommit(s, e.m, e.p, e.n)
    [] e.e = "trouble" -> StepTrouble(s, e.m)
    [] e.e = "stop" -> StepStop(s, e.m)
    [] e.e = "stopped" -> StepStopped(s, e.m)
    [] e.e = "rest" -> IF Rest(s) THEN {s} ELSE {}
    [] e.e = "end" -> IF s.alive \ s.ill = {} THEN {s} ELSE {}
    [] OTHER -> {}

VARIABLES k, l, bel
vars == <<k, l, bel>>
Init == k \in DOMAIN Logs /\ l = 1 /\ bel = { Start(Logs[k].parts) }
Next == /\ l <= Len(Logs[k].ev)
        /\ bel # {}
        /\ bel' = UNION { Apply(s, Logs[k].ev[l]) : s \in bel }
        /\ l' = l + 1
        /\ k' = k
        /\ bel' = {} => PrintT(<<"REJECT", Logs[k].id, l>>)
Spec == Init /\ [][Next]_vars
==================================================================================
