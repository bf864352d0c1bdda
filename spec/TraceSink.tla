------------------------------- MODULE TraceSink -------------------------------
(***************************************************************************)
(* Validation of recorded runs of datadog.Sink (under virtual time, with a *)
(* recording agent) against Sink.  Events: put (a trace is offered), taken *)
(* (it was accepted), submit (the agent is called), done (the call         *)
(* returned, with success or not), rest (all goroutines wait).             *)
(***************************************************************************)
EXTENDS Sink, Json, IOUtils, TLC

Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

\* lists: sequence of [tr, runs]; {} if it is no proper batch
Batch(lists) ==
  IF /\ lists # <<>>
     /\ \A i, j \in DOMAIN lists : i # j => lists[i].tr # lists[j].tr
     /\ \A i \in DOMAIN lists : lists[i].runs # <<>>
  THEN { [ t \in { lists[i].tr : i \in DOMAIN lists } |->
             LET i == CHOOSE i \in DOMAIN lists : lists[i].tr = t IN lists[i].runs ] }
  ELSE {}

Apply(s, e) ==
  CASE e.e = "put" -> StepPut(s, e.runs, e.n)
    [] e.e = "taken" -> IF e.t = e.t0 THEN {s} ELSE {}       \* at once
    [] e.e = "submit" -> UNION { StepSubmit(s, b) : b \in Batch(e.lists) }
    [] e.e = "done" -> UNION { StepDone(s, b) : b \in Batch(e.lists) }
    [] e.e = "rest" -> IF AtRest(s) /\ s.tick > s.now THEN {s} ELSE {}
    [] OTHER -> {}

StepEvent(s, e) == UNION { Apply(x, e) : x \in At(s, e.t) }

VARIABLES k, l, bel
vars == <<k, l, bel>>
Init == k \in DOMAIN Logs /\ l = 1 /\ bel = { Start }
Next == /\ l <= Len(Logs[k].ev)
        /\ bel # {}
        /\ bel' = UNION { StepEvent(s, Logs[k].ev[l]) : s \in bel }
        /\ l' = l + 1
        /\ k' = k
        /\ bel' = {} => PrintT(<<"REJECT", Logs[k].id, l>>)
Spec == Init /\ [][Next]_vars
===============================================================================
