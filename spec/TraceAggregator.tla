--------------------------- MODULE TraceAggregator ---------------------------
(***************************************************************************)
(* Validation of recorded runs of ErrorCorrectSpans (under virtual time)   *)
(* against Aggregator.  Each line of the log is one scenario with its      *)
(* events in the order they happened:                                      *)
(*   add   a span was taken from the input channel (bl: and counted as one *)
(*         of a blocked trace); n > 1 for fillers                          *)
(*   emit  a trace was received from the output channel                    *)
(*   stall / resume   the consumer stops / starts taking traces            *)
(*   idle  time has passed, and everything is at rest                      *)
(*   metrics  the values of the metrics                                    *)
(* Checks and their ends are not logged; they are inferred.                *)
(***************************************************************************)
EXTENDS Aggregator, Json, IOUtils

Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

ToSpan(j) == [ id |-> j.id, par |-> j.par, name |-> j.name, svc |-> j.svc, ts |-> j.ts, dur |-> j.dur,
               cs |-> j.cs, cr |-> j.cr, ss |-> j.ss, sr |-> j.sr, tags |-> ToSet(j.tags) ]

\* All checks that must have happened before time t.
RECURSIVE Must(_, _)
Must(s, t) ==
  IF s.busy THEN IF s.stalled \/ s.now = t THEN { [ s EXCEPT !.now = t ] } ELSE {}
  ELSE IF s.box # <<>> /\ ~s.stalled /\ t > s.now THEN {}       \* they are taken at once
  ELSE LET due == IF s.tick > s.now THEN s.tick ELSE s.now IN
       IF due < t THEN UNION { Must(x, t) : x \in StepSweep(s, due) }
       ELSE { [ s EXCEPT !.now = t ] }

\* ... and one that may have happened at t.
At(s, t) == LET S == Must(s, t) IN
            S \cup UNION { StepSweep(x, t) : x \in { y \in S : ~y.busy /\ y.tick <= t } }

Apply(s, e) ==
  CASE e.e = "add" ->
         { x \in StepAdd(s, e.tr, ToSpan(e.sp), e.n, e.t) :
             e.bl = "?" \/ e.bl = (IF x.m.blacklisted > s.m.blacklisted THEN "y" ELSE "n") }
    [] e.e = "many" ->
         LET ids == e.from .. e.to IN
         StepMany(s, ids, ToSpan(e.sp), IF e.probe THEN ToSet(e.bl) ELSE ids \cap s.black, e.t)
    [] e.e = "emit" ->
         LET spans == { ToSpan(e.spans[i]) : i \in DOMAIN e.spans } IN
         IF Cardinality(spans) = Len(e.spans) THEN StepEmit(s, e.tr, spans, e.mult) ELSE {}
    [] e.e = "stall" -> { [ s EXCEPT !.stalled = TRUE ] }
    [] e.e = "resume" -> { [ s EXCEPT !.stalled = FALSE ] }
    [] e.e = "idle" -> IF (s.busy \/ s.box # <<>>) /\ ~s.stalled THEN {}
                       ELSE IF s.tick <= s.now /\ ~s.busy THEN {}    \* the check is done too
                       ELSE { s }
    \* in the middle of a check the metrics are in motion
    [] e.e = "metrics" -> IF s.busy \/ e.m = s.m THEN { s } ELSE {}
    [] OTHER -> {}

StepEvent(s, e) == UNION { Apply(x, e) : x \in At(s, e.t) }

RealBuf == << [min |-> 0, ms |-> 8000], [min |-> 40000, ms |-> 6000],
              [min |-> 60000, ms |-> 4000], [min |-> 80000, ms |-> 2000] >>

VARIABLES k, l, bel
vars == <<k, l, bel>>

Init == /\ k \in DOMAIN Logs
        /\ l = 1
        /\ bel = { [ Start EXCEPT !.room = Logs[k].room ] }

Next == /\ l <= Len(Logs[k].ev)
        /\ bel # {}
        /\ bel' = UNION { StepEvent(s, Logs[k].ev[l]) : s \in bel }
        /\ l' = l + 1
        /\ k' = k
        /\ bel' = {} => PrintT(<<"REJECT", Logs[k].id, l>>)

Spec == Init /\ [][Next]_vars
=============================================================================
