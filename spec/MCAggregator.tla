----------------------------- MODULE MCAggregator -----------------------------
(* Exhaustive check of Aggregator with small constants: a few traces and spans, *)
(* every interleaving of spans, checks, stalls and the passing of time.         *)
EXTENDS Aggregator

CONSTANTS TraceIds, SpanIds, Rooms

LargeBuf == << [min |-> 0, ms |-> 5], [min |-> 3, ms |-> 3] >>
SmallBuf == << [min |-> 0, ms |-> 3], [min |-> 3, ms |-> 2] >>

VARIABLES s, act       \* the state, and what the last step was
vars == <<s, act>>

Sp(i) == [ id |-> i, par |-> IF i = 1 THEN 0 ELSE 1, name |-> "n", svc |-> "s", ts |-> 10, dur |-> 2,
           cs |-> EPOCH, cr |-> EPOCH, ss |-> EPOCH, sr |-> EPOCH, tags |-> {} ]

Due == s.tick <= s.now

Init == s \in { [ Start EXCEPT !.room = r ] : r \in Rooms } /\ act = "init"
Add == \E t \in TraceIds, i \in SpanIds \cup {0} :
         /\ s' \in StepAdd(s, t, Sp(i), 1, s.now) /\ act' = "add"
Sweep == Due /\ s' \in StepSweep(s, s.now) /\ act' = "sweep"
Emit == \E t \in DOMAIN Offered(s) :
         s' \in StepEmit(s, t, Offered(s)[t].spans, Offered(s)[t].mult) /\ act' = "emit"
Pass == /\ s.busy \/ s.box # <<>> => s.stalled
        /\ s.busy \/ ~Due
        /\ s' = [ s EXCEPT !.now = @ + 1 ] /\ act' = "pass"
Toggle == s' = [ s EXCEPT !.stalled = ~@ ] /\ act' = "toggle"

Next == Add \/ Sweep \/ Emit \/ Pass \/ Toggle
Spec == Init /\ [][Next]_vars

(* Only relative times matter, and beyond the longest limit not even those. *)
Cap == OldFactor * Buf[1].ms + 2
Age(t) == LET a == s.now - t IN IF a > Cap THEN Cap ELSE a
View == << [ i \in DOMAIN s.traces |-> <<DOMAIN s.traces[i].spans, Age(s.traces[i].first), Age(s.traces[i].last)>> ],
           s.black, s.maybe, s.nmaybe, s.pend, s.busy, s.stalled, s.room, [ i \in DOMAIN s.box |-> DOMAIN s.box[i] ], s.atStart > MaxSpans,
           IF Due THEN -1 ELSE s.tick - s.now, act >>

-----------------------------------------------------------------------------
Disjoint == /\ DOMAIN s.traces \cap DOMAIN s.pend = {}
            /\ s.black \cap DOMAIN s.traces = {}
            /\ s.black \cap s.maybe = {}
            /\ s.nmaybe >= 0 /\ s.nmaybe <= Cardinality(s.maybe)
            /\ s.busy <=> s.pend # [i \in {} |-> 0]
BlockBound == ~s.busy /\ ~Due => Cardinality(s.black) + s.nmaybe < BlackMax
\* nothing waits too long, nothing lives too long
Prompt == ~s.busy /\ ~Due =>
            \A i \in DOMAIN s.traces :
              /\ s.now - s.traces[i].last < Buf[1].ms + Tick
              /\ s.now - s.traces[i].first <= OldFactor * Buf[1].ms + Tick
\* traces wait for the consumer only if it has stalled; the channel is never overfull, and
\* only what does not fit keeps the check from its end
BoxOk == /\ InBox(s) <= s.room
         /\ s.busy => InBox(s) + Cardinality(DOMAIN s.pend) > s.room
         /\ \A i \in DOMAIN s.box : DOMAIN s.box[i] # {}
\* nothing is handed on that is too large
PendOk == \A i \in DOMAIN s.pend : Cardinality(s.pend[i].spans) <= TooLarge + 1

Gone(x) == x.m.finished + x.m.noroot + x.m.toolarge + x.m.tooold + x.m.discarded
Known2(x) == Gone(x) + Cardinality(DOMAIN x.traces) + Cardinality(DOMAIN x.pend)
\* every trace leaves in exactly one way
Accounting == [][ Known2(s') - Known2(s) =
                  (IF act' = "add" /\ DOMAIN s'.traces # DOMAIN s.traces THEN 1 ELSE 0) ]_vars
\* only blocked traces are ignored, and never a blocked one accepted
Blocked == [][ act' = "add" =>
                 /\ s'.m.blacklisted > s.m.blacklisted => s'.traces = s.traces
                 /\ \A i \in DOMAIN s'.traces : i \notin s.black ]_vars
\* not handed on early
NotEarly == [][ act' = "sweep" =>
                 \A i \in DOMAIN s'.pend : s.now - s.traces[i].last >= Buf[2].ms ]_vars
\* shedding: enough, not more than needed, and the largest
Ended == ~s'.busy /\ (act' = "sweep" \/ (act' = "emit" /\ s.busy))
Shedding == [][ Ended =>
                 LET mid  == IF act' = "emit" THEN DOMAIN s.traces
                             ELSE { i \in DOMAIN s.traces :
                                      /\ i \in DOMAIN s'.traces \/ ~(Nodes(s.traces[i]) > TooLarge) }
                     kept == DOMAIN s'.traces
                     all(S) == Total(s.traces, S)
                 IN /\ s'.atStart > MaxSpans => Total(s'.traces, kept) < MaxSpans
                    /\ (act' = "emit" /\ s'.atStart <= MaxSpans) => kept = mid
                    /\ act' = "emit" =>
                         LET gone == mid \ kept IN
                         /\ \A i \in gone, j \in kept : Nodes(s.traces[i]) >= Nodes(s.traces[j])
                         /\ gone # {} => \E i \in gone : all(kept) + Nodes(s.traces[i]) >= MaxSpans ]_vars
=============================================================================
