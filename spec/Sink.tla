--------------------------------- MODULE Sink ---------------------------------
(***************************************************************************)
(* The Datadog sink (datadog/converter.go: Sink, submitTraces): spans are  *)
(* collected per trace; enough of them, or the passing of time, make them  *)
(* one batch, which goes into a queue of QueueMax; a submitter sends one   *)
(* batch after the other to the agent.  A batch that finds the queue full  *)
(* is discarded.                                                           *)
(*                                                                         *)
(* A span is its trace and its number in the order of arrival; the spans   *)
(* of a trace are a sequence of runs <<from, n>> of consecutive numbers.   *)
(*                                                                         *)
(* As in Aggregator, steps are operators from a state and an observed      *)
(* event to the set of possible next states.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS
  Tick,        \* milliseconds between ticks
  MinAge,      \* a tick makes a batch only if the last one is at least as old
  Enough,      \* as many spans make a batch at once
  QueueMax     \* batches waiting behind the one in progress

LongAgo == -1000000

(***************************************************************************)
(*  now, tick   time of the last event; time of the next tick              *)
(*  last        time of the last batch, whatever became of it              *)
(*  pend        function: trace -> sequence of runs; count: their spans    *)
(*  queue       waiting batches; cur: the batch in progress (<<>> or <<b>>)*)
(*  lost        number of discarded batches                                *)
(***************************************************************************)
Nothing == [ x \in {} |-> <<>> ]
Start == [ now |-> 0, tick |-> Tick, last |-> LongAgo, pend |-> Nothing, count |-> 0,
           queue |-> <<>>, cur |-> <<>>, lost |-> 0 ]

\* appends a run, joining it with the last one if it continues it
AddRun(runs, r) ==
  IF runs # <<>> /\ runs[Len(runs)][1] + runs[Len(runs)][2] = r[1]
  THEN [ runs EXCEPT ![Len(runs)] = << @[1], @[2] + r[2] >> ]
  ELSE Append(runs, r)

AddTo(pend, tr, r) ==
  [ x \in DOMAIN pend \cup {tr} |->
      IF x = tr THEN AddRun(IF tr \in DOMAIN pend THEN pend[tr] ELSE <<>>, r) ELSE pend[x] ]

\* an idle submitter takes the next batch at once
Advance(s) ==
  IF s.cur = <<>> /\ s.queue # <<>>
  THEN [ s EXCEPT !.cur = << [ b |-> Head(s.queue), seen |-> FALSE ] >>, !.queue = Tail(s.queue) ]
  ELSE s

Flush(s) ==
  LET e == [ s EXCEPT !.pend = Nothing, !.count = 0, !.last = s.now ] IN
  IF Len(s.queue) < QueueMax
  THEN Advance([ e EXCEPT !.queue = Append(@, s.pend) ])
  ELSE [ e EXCEPT !.lost = @ + 1 ]

\* runs: the spans of one trace handed to the sink: sequence of <<trace, from, n>>
StepPut(s, runs, n) ==
  LET p == FoldLeft(LAMBDA acc, r : AddTo(acc, r[1], <<r[2], r[3]>>), s.pend, runs)
      e == [ s EXCEPT !.pend = p, !.count = @ + n ]
  IN { IF e.count >= Enough THEN Flush(e) ELSE e }

StepTick(s) ==
  LET e == [ s EXCEPT !.now = s.tick, !.tick = @ + Tick ] IN
  { IF e.now - e.last >= MinAge /\ e.count > 0 THEN Flush(e) ELSE e }

\* the agent is called with this batch
StepSubmit(s, b) ==
  IF s.cur # <<>> /\ ~s.cur[1].seen /\ s.cur[1].b = b
  THEN { [ s EXCEPT !.cur = << [ b |-> b, seen |-> TRUE ] >> ] } ELSE {}

\* the call has returned; the batch is still the same
StepDone(s, b) ==
  IF s.cur # <<>> /\ s.cur[1].seen /\ s.cur[1].b = b
  THEN { Advance([ s EXCEPT !.cur = <<>> ]) } ELSE {}

\* nothing is about to happen
AtRest(s) == s.cur # <<>> => s.cur[1].seen

\* all ticks before t
RECURSIVE Must(_, _)
Must(s, t) ==
  IF t > s.now /\ ~AtRest(s) THEN {}
  ELSE IF s.tick < t THEN UNION { Must(x, t) : x \in StepTick(s) }
  ELSE { [ s EXCEPT !.now = t ] }

\* ... and one that may have happened at t
At(s, t) == LET S == Must(s, t) IN
            S \cup UNION { StepTick(x) : x \in { y \in S : y.tick <= t } }
===============================================================================
