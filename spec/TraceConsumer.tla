------------------------------ MODULE TraceConsumer ------------------------------
(* Validation of recorded runs of balance.Consume with a group of the harness.    *)
EXTENDS Consumer, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

SeqSet(q) == { q[i] : i \in DOMAIN q }
Apply(s, e) ==
  CASE e.e = "begin" -> IF e.topic THEN StepBegin(s, SeqSet(e.ps)) ELSE {}
    [] e.e = "error" -> IF e.topic THEN StepError(s) ELSE {}
    [] e.e = "offer" -> StepOffer(s, e.p)
    [] e.e = "call" -> StepCall(s, e.p, e.n)
    [] e.e = "return" -> StepReturn(s, e.p, e.n)
    [] e.e = "mark" -> StepMark(s, e.p, e.n)
    [] e.e = "ending" -> StepEnding(s)
    [] e.e = "claimend" -> StepClaimEnd(s, e.p)
    [] e.e = "end" -> StepEnd(s)
    [] e.e = "stop" -> StepStop(s)
    [] e.e = "stopped" -> StepStopped(s)
    [] e.e = "rest" -> IF Rest(s) THEN {s} ELSE {}
    [] OTHER -> {}

VARIABLES k, l, bel
vars == <<k, l, bel>>
Init == k \in DOMAIN Logs /\ l = 1 /\ bel = { Start(Logs[k].good) }
Next == /\ l <= Len(Logs[k].ev)
        /\ bel # {}
        /\ bel' = UNION { Apply(s, Logs[k].ev[l]) : s \in bel }
        /\ l' = l + 1
        /\ k' = k
        /\ bel' = {} => PrintT(<<"REJECT", Logs[k].id, l>>)
Spec == Init /\ [][Next]_vars
==================================================================================
