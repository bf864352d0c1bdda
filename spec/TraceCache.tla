-------------------------------- MODULE TraceCache --------------------------------
(* Lookups in the shared string cache: what was asked for, what came back, and      *)
(* what it was at the end (the texts are given by their hex digits).                *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)
Ok(log) == \A i \in DOMAIN log.looks :
  LET x == log.looks[i] IN x[1] = x[2] /\ x[2] = x[3]
VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ Ok(Logs[k]) \/ PrintT(<<"REJECT", Logs[k].id, 1>>)
Spec == Init /\ [][Next]_vars
===================================================================================
