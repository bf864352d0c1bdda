------------------------------ MODULE TraceDatadog ------------------------------
(* Spans given to the sink and what the agent was given for them.             *)
EXTENDS Datadog, Json, IOUtils, TLC, SequencesExt

Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

In(j) == [ j EXCEPT !.tags = ToSet(@) ]

Ok(log) == \A i \in DOMAIN log.pairs :
  LET p == log.pairs[i] IN
  p.both /\ Convert(In(p.in)) = In(p.out)

VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ Ok(Logs[k]) \/ PrintT(<<"REJECT", Logs[k].id, 1>>)
Spec == Init /\ [][Next]_vars
=================================================================================
