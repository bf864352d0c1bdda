-------------------------------- MODULE TraceEnds --------------------------------
(* Recorded parses of arbitrary bytes: what came out of a batch of inputs, and the     *)
(* largest use of memory in proportion to the input.  A parser ends with a result or   *)
(* an error, and uses no more memory than a multiple of what it was given.             *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

PerByte == 1000                    \* an empty span of three bytes becomes an object of some hundred
Fixed == 2048                      \* KiB
Ok(log) ==
  /\ \A i \in DOMAIN log.outcomes : log.outcomes[i] \in { "result", "error" }
  /\ log.worst.kib <= ((log.worst.len \div 1024) * PerByte) + Fixed

VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ Ok(Logs[k]) \/ PrintT(<<"REJECT", Logs[k].id, 1>>)
Spec == Init /\ [][Next]_vars
==================================================================================
