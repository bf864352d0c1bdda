-------------------------------- MODULE MCSink --------------------------------
(* Exhaustive check of Sink with small constants.                             *)
EXTENDS Sink, TLC

CONSTANTS Traces, MaxSize, MaxSpans, MaxTime

VARIABLES s, given, sent, gone, born, act
vars == <<s, given, sent, gone, born, act>>
\* given: number of spans given; sent: sequence of finished batches; gone: discarded spans;
\* born: for each pending span, when it came

Spans(b) == UNION { { <<t, i>> : i \in UNION { b[t][k][1] .. (b[t][k][1] + b[t][k][2] - 1) : k \in DOMAIN b[t] } } : t \in DOMAIN b }
AllOf(q) == UNION { Spans(q[i]) : i \in DOMAIN q }

Init == s = Start /\ given = {} /\ sent = <<>> /\ gone = {} /\ born = [ x \in {} |-> 0 ] /\ act = "init"

Put == \E t \in Traces, n \in 0..MaxSize :
  /\ Cardinality(given) + n <= MaxSpans
  /\ LET from == Cardinality(given) + 1
         runs == IF n = 0 THEN <<>> ELSE << <<t, from, n>> >>
         new  == { <<t, i>> : i \in from .. (from + n - 1) }
     IN /\ s' \in StepPut(s, runs, n)
        /\ given' = given \cup new
        /\ gone' = IF s'.lost > s.lost THEN gone \cup Spans(s.pend) \cup new ELSE gone
        /\ born' = [ x \in Spans(s'.pend) |-> IF x \in DOMAIN born THEN born[x] ELSE s.now ]
  /\ UNCHANGED sent /\ act' = "put"
Pass == /\ AtRest(s) /\ s.tick > s.now /\ s.now < MaxTime
        /\ s' = [ s EXCEPT !.now = @ + 1 ] /\ act' = "pass"
        /\ UNCHANGED <<given, sent, gone, born>>
TickStep ==
        /\ s.tick = s.now
        /\ s' \in StepTick(s) /\ act' = "tick"
        /\ gone' = IF s'.lost > s.lost THEN gone \cup Spans(s.pend) ELSE gone
        /\ born' = [ x \in Spans(s'.pend) |-> born[x] ]
        /\ UNCHANGED <<given, sent>>
Submit == /\ s.cur # <<>> /\ s' \in StepSubmit(s, s.cur[1].b) /\ act' = "submit"
          /\ UNCHANGED <<given, sent, gone, born>>
Done == /\ s.cur # <<>> /\ s' \in StepDone(s, s.cur[1].b) /\ act' = "done"
        /\ sent' = Append(sent, s.cur[1].b)
        /\ UNCHANGED <<given, gone, born>>
Next == Put \/ Pass \/ TickStep \/ Submit \/ Done
Spec == Init /\ [][Next]_vars

Batches == sent \o (IF s.cur = <<>> THEN <<>> ELSE << s.cur[1].b >>) \o s.queue
\* every span is in exactly one place
Conserved ==
  LET parts == << AllOf(sent), IF s.cur = <<>> THEN {} ELSE Spans(s.cur[1].b), AllOf(s.queue), Spans(s.pend), gone >>
  IN /\ UNION { parts[i] : i \in DOMAIN parts } = given
     /\ FoldLeft(LAMBDA a, p : a + Cardinality(p), 0, parts) = Cardinality(given)
     /\ FoldLeft(LAMBDA a, b : a + Cardinality(Spans(b)), 0, Batches) = Cardinality(AllOf(Batches))
     /\ s.count = Cardinality(Spans(s.pend))
NonEmpty == \A i \in DOMAIN Batches : Spans(Batches[i]) # {}
\* batches in order, and each trace's spans in order
InOrder == \A i, j \in DOMAIN Batches : i < j => \A x \in Spans(Batches[i]), y \in Spans(Batches[j]) : x[2] < y[2]
RunsInOrder == \A t \in DOMAIN s.pend : \A i, j \in DOMAIN s.pend[t] : i < j => s.pend[t][i][1] < s.pend[t][j][1]
Bounded == Len(s.queue) <= QueueMax /\ s.count < Enough
\* waiting: at most two ticks
Prompt == \A x \in DOMAIN born : s.now - born[x] <= 2 * Tick
\* nothing is discarded while there is room
OnlyWhenFull == [][ s'.lost > s.lost => s.cur # <<>> /\ Len(s.queue) = QueueMax ]_vars
NeverIdle == s.queue # <<>> => s.cur # <<>>
===============================================================================
