------------------------------ MODULE TraceProducer ------------------------------
(* Validation of recorded runs of balance.Sender with a broker of the harness.    *)
(* Anything that is not an event of Producer (a span that is refused, an unknown  *)
(* message) ends the log.                                                         *)
EXTENDS Producer, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

VARIABLES k, l, s
vars == <<k, l, s>>
Init == k \in DOMAIN Logs /\ l = 1 /\ s = Start(Len(Logs[k].ids))

Possible(log, e) ==
  CASE e.e \in {"offer", "taken", "trouble", "healed"} -> TRUE
    [] e.e = "arrive" -> /\ e.topic /\ e.n \in DOMAIN log.trace
                         /\ CanArrive(s, e.n, log.trace[e.n], e.p, e.key, log.ids[log.trace[e.n]])
    [] e.e = "rest" -> Rest(s)
    [] OTHER -> FALSE
After(log, e) ==
  CASE e.e = "offer" -> StepOffer(s, e.n)
    [] e.e = "taken" -> StepTaken(s, e.n, e.big)
    [] e.e = "arrive" -> StepArrive(s, e.n, log.trace[e.n], e.p)
    [] e.e = "trouble" -> StepTrouble(s)
    [] e.e = "healed" -> StepHealed(s)
    [] OTHER -> s
Next == /\ l \in 1..Len(Logs[k].ev)
        /\ k' = k
        /\ IF Possible(Logs[k], Logs[k].ev[l]) THEN s' = After(Logs[k], Logs[k].ev[l]) /\ l' = l + 1
           ELSE s' = s /\ l' = 0 /\ PrintT(<<"REJECT", Logs[k].id, l>>)
Spec == Init /\ [][Next]_vars
==================================================================================
