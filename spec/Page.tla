---------------------------------- MODULE Page ----------------------------------
(***************************************************************************)
(* What the metrics page shows. An upload has a format, is accepted or not *)
(* and carries traces, each of which is known by its shape:                *)
(*   spans reports, of which distinct are first reports of their span,     *)
(*   roots (spans without a parent in the trace), same (they all name the  *)
(*   same missing parent), black (the trace is blocked by then).           *)
(* Counts are functions from the names below to numbers.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TooLarge == 8192
Formats == { "json-v1", "json-v2", "jaeger" }
RecvKeys == { "spans.receive[type:json-v1]", "spans.receive[type:json-v2]", "spans.receive[type:jaeger]" }
Recv(f) == "spans.receive[type:" \o f \o "]"
Parsed == "spans.parsed[type:json]"
Ends == { "traces.finished", "traces.noroot", "traces.toolarge", "traces.tooold", "traces.discarded" }
Early == RecvKeys \cup { Parsed }
Other == { "spans.merged", "spans.discarded", "blacklist.span.received", "traces.corrected", "traces.finishedsize" }
Late == Ends \cup Other
Keys == Early \cup Late
Gauges == { "traces.partial.count", "traces.partial.span.count" }

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ { x })

Outcome(t) == IF t.black THEN "none"
              ELSE IF t.distinct > TooLarge THEN "traces.toolarge"
              ELSE IF t.roots = 1 \/ t.same THEN "traces.finished"
              ELSE "traces.noroot"
\* a trace's part in a count
Part(t, key) ==
  LET o == Outcome(t)
  IN CASE key = Parsed -> t.spans
       [] key = "blacklist.span.received" -> IF t.black THEN t.spans ELSE 0
       [] key = "spans.merged" -> IF t.black THEN 0 ELSE t.spans - t.distinct
       [] key \in { "traces.corrected", "traces.finished" } -> IF o = "traces.finished" THEN 1 ELSE 0
       [] key = "traces.finishedsize" -> IF t.black THEN 0 ELSE 1
       [] OTHER -> IF key = o THEN 1 ELSE 0
\* an upload's part: spans that carry no ids are parsed, and belong to no trace
Adds(u, key) ==
  IF key \in RecvKeys THEN (IF u.timed /\ key = Recv(u.fmt) THEN 1 ELSE 0)
  ELSE IF ~u.ok THEN 0
  ELSE Sum([ i \in DOMAIN u.traces |-> Part(u.traces[i], key) ], DOMAIN u.traces) + (IF key = Parsed THEN u.invalid ELSE 0)
Total(us, S, key) == Sum([ i \in S |-> Adds(us[i], key) ], S)

(* A page asked for when the uploads `done` had been answered, and those of `gone` had left the buffer, *)
(* read while those of `sent` had been sent: between these.                                             *)
Lo(us, done, gone, key) == IF key \in Early THEN Total(us, done, key) ELSE Total(us, gone, key)
Hi(us, sent, key) == Total(us, sent, key)
(* the gauges: nothing is buffered when all have left *)
Buffered(us, S) == Sum([ i \in S |-> IF us[i].ok THEN Len(us[i].traces) ELSE 0 ], S)
=================================================================================
