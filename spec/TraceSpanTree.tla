----------------------------- MODULE TraceSpanTree -----------------------------
(***************************************************************************)
(* What came out of ErrorCorrectSpans for single traces: each line of the  *)
(* log is one trace, with the reports that were sent for it, in order, and *)
(* all that was handed on for its trace id.                                *)
(***************************************************************************)
EXTENDS SpanTree, Json, IOUtils, TLC

CONSTANT What      \* what is compared: "merge", "roots" or "skew"

Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

ToSpan(j) == [ id |-> j.id, par |-> j.par, name |-> j.name, svc |-> j.svc, ts |-> j.ts, dur |-> j.dur,
               cs |-> j.cs, cr |-> j.cr, ss |-> j.ss, sr |-> j.sr, tags |-> ToSet(j.tags) ]
Spans(js) == { ToSpan(js[i]) : i \in DOMAIN js }

T == 9

(* Each property looks at what it is about only.  *)
View(sp) ==
  CASE What = "merge" -> IF AllFour(sp) THEN [ sp EXCEPT !.ts = 0, !.dur = 0 ] ELSE sp
    [] What = "roots" -> IF sp.svc = "fake-root" THEN sp
                         ELSE [ id |-> sp.id, par |-> sp.par ]
    [] What = "skew"  -> [ sp EXCEPT !.name = "", !.svc = "" ]

Ok(log) ==
  LET o == Outcome(AddAll([ i \in DOMAIN log.reports |-> ToSpan(log.reports[i]) ]), 0, T) IN
  IF o.ok
  THEN /\ Len(log.outs) = 1
       /\ Len(log.outs[1]) = Cardinality(o.spans)
       /\ { View(sp) : sp \in Spans(log.outs[1]) } = { View(sp) : sp \in o.spans }
  ELSE log.outs = <<>>

VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ k' = k
        /\ Ok(Logs[k]) \/ PrintT(<<"REJECT", Logs[k].id, 1>>)
Spec == Init /\ [][Next]_vars
=============================================================================
