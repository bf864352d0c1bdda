----------------------------- MODULE Aggregator -----------------------------
(***************************************************************************)
(* The aggregation loop (correct.go: ErrorCorrectSpans, finishTraces,      *)
(* discardSuspiciousTraces): spans are collected per trace; a check every  *)
(* Tick milliseconds removes the traces that are too large, too old, or    *)
(* quiet, blocks the ids of the first two, and hands the others on; then   *)
(* it sheds load and trims the block list.                                 *)
(*                                                                         *)
(* The loop is one goroutine.  Its atomic steps are: taking one span       *)
(* (StepAdd); deciding a check (StepSweep), which fixes the set of traces  *)
(* to hand on; handing on one of them, which blocks while the consumer is  *)
(* stalled and its channel is full; and, after the last of them, the end   *)
(* of the check (EndSweep), which sheds load and trims the block list.     *)
(* The consumer takes a trace from the channel (StepEmit).                 *)
(*                                                                         *)
(* Steps are operators from a state (and an observed event) to the set of  *)
(* possible next states, so that the same definitions serve the exhaustive *)
(* model check (MCAggregator) and the validation of traces recorded from   *)
(* the code (TraceAggregator), which tracks the set of states the code may *)
(* be in.                                                                  *)
(***************************************************************************)
EXTENDS SpanTree, TLC

CONSTANTS
  Tick,        \* milliseconds between checks
  Buf,         \* sequence of [min |-> spans buffered, ms |-> buffer time]
  OldFactor,   \* a trace older than OldFactor buffer times is too old
  TooLarge,    \* a trace with more spans is too large
  MaxSpans,    \* more buffered spans than this is an overload
  BlackMax     \* the block list is trimmed to less than this

(***************************************************************************)
(* State.                                                                  *)
(*   now     time of the last event                                        *)
(*   tick    time of the next check                                        *)
(*   traces  function: trace id -> [spans, mult, first, last]              *)
(*   black   trace ids certainly blocked                                   *)
(*   maybe   trace ids blocked before an eviction of random ids; nmaybe of *)
(*           them still are                                                *)
(*   pend    traces the current check still has to hand on:                *)
(*           function: trace id -> [spans (set), mult]                     *)
(*   busy    a check is in progress                                        *)
(*   atStart spans counted when the current check began                    *)
(*   stalled the consumer is not taking traces                             *)
(*   room    how many traces the channel to the consumer holds             *)
(*   box     the traces in it, as one function like pend for each check    *)
(*           they come from; within a check their order is not known.      *)
(*           (While a check is in progress, as many traces of pend as the  *)
(*           channel still holds are in there as well.)                    *)
(*   m       metrics                                                       *)
(***************************************************************************)
NoMetrics == [ finished |-> 0, noroot |-> 0, toolarge |-> 0, tooold |-> 0,
               discarded |-> 0, spansDiscarded |-> 0, merged |-> 0, blacklisted |-> 0,
               inflightTraces |-> 0, inflightSpans |-> 0 ]

Start == [ now |-> 0, tick |-> Tick, traces |-> [i \in {} |-> 0], black |-> {}, maybe |-> {},
           nmaybe |-> 0, pend |-> [i \in {} |-> 0], busy |-> FALSE, atStart |-> 0,
           stalled |-> FALSE, room |-> 0, box |-> <<>>, m |-> NoMetrics ]

Without(f, S) == [ i \in DOMAIN f \ S |-> f[i] ]

Nodes(tr) == Cardinality(DOMAIN tr.spans \ {FILL}) + tr.mult

Total(traces, ids) == FoldSet(LAMBDA i, acc : acc + Nodes(traces[i]), 0, ids)

BufferTime(count) ==
  FoldLeft(LAMBDA acc, c : IF count >= c.min THEN c.ms ELSE acc, 0, Buf)

-----------------------------------------------------------------------------
(* Taking a span: n reports of the same content (n > 1 only for fillers).  *)
(* "ignored" tells whether the code counted it as a span of a blocked      *)
(* trace.                                                                  *)

AddTo(tr, sp, n, t) ==
  IF sp.id = FILL
  THEN [ tr EXCEPT !.spans = IF FILL \in DOMAIN @ THEN @ ELSE AddSpan(@, sp),
                   !.mult = @ + n, !.last = t ]
  ELSE [ tr EXCEPT !.spans = AddSpan(@, sp), !.last = t ]

NewTrace(t) == [ spans |-> NoSpans, mult |-> 0, first |-> t, last |-> t ]

Accept(s, trid, sp, n, t) ==
  LET known == trid \in DOMAIN s.traces
      tr    == IF known THEN s.traces[trid] ELSE NewTrace(t)
      tr2   == AddTo(tr, sp, n, t)
      merge == sp.id # FILL /\ sp.id \in DOMAIN tr.spans
  IN [ s EXCEPT !.traces = [ i \in DOMAIN @ \cup {trid} |-> IF i = trid THEN tr2 ELSE @[i] ],
                !.m.merged = @ + (IF merge THEN 1 ELSE 0) ]

Ignore(s, trid, n) ==
  [ s EXCEPT !.black = @ \cup {trid}, !.maybe = @ \ {trid},
             !.nmaybe = IF trid \in s.maybe THEN @ - 1 ELSE @,
             !.m.blacklisted = @ + n ]

StepAdd(s, trid, sp, n, t) ==
  IF s.busy THEN {}
  ELSE IF trid = 0 \/ sp.id = 0 THEN { s }
  ELSE IF trid \in s.black THEN { Ignore(s, trid, n) }
  ELSE IF trid \in s.maybe
       THEN { x \in { Ignore(s, trid, n),
                      [ Accept(s, trid, sp, n, t) EXCEPT !.maybe = @ \ {trid} ] } :
              x.nmaybe >= 0 /\ x.nmaybe <= Cardinality(x.maybe) }
  ELSE { Accept(s, trid, sp, n, t) }

\* One span of the same content for each of the traces ids, of which those in
\* bl were ignored.
StepMany(s, ids, sp, bl, t) ==
  LET unsure == ids \cap s.maybe
      hit    == bl \cap unsure
      ok     == ids \ bl
      known  == { i \in ok : i \in DOMAIN s.traces }
      tr(i)  == AddTo(IF i \in known THEN s.traces[i] ELSE NewTrace(t), sp, 1, t)
      s2     == [ s EXCEPT
                    !.traces = [ i \in DOMAIN @ \cup ok |-> IF i \in ok THEN tr(i) ELSE @[i] ],
                    !.black = @ \cup hit, !.maybe = @ \ unsure,
                    !.nmaybe = @ - Cardinality(hit),
                    !.m.blacklisted = @ + Cardinality(bl),
                    !.m.merged = @ + Cardinality({ i \in known : sp.id \in DOMAIN s.traces[i].spans }) ]
  IN IF /\ ~s.busy
        /\ (ids \cap s.black) \subseteq bl /\ bl \subseteq (ids \cap s.black) \cup unsure
        /\ s2.nmaybe >= 0 /\ s2.nmaybe <= Cardinality(s2.maybe)
     THEN { s2 } ELSE {}

-----------------------------------------------------------------------------
(* A check. *)

IsLarge(tr) == Nodes(tr) > TooLarge
IsOld(tr, t, buf) == tr.first < t - OldFactor * buf
IsQuiet(tr, t, buf) == tr.last <= t - buf

\* All ways to discard largest traces until fewer than MaxSpans spans remain.
RECURSIVE Shed(_, _)
Shed(traces, total) ==
  IF total < MaxSpans THEN { traces }
  ELSE LET big == Max({ Nodes(traces[i]) : i \in DOMAIN traces })
           top == { i \in DOMAIN traces : Nodes(traces[i]) = big }
       IN UNION { Shed(Without(traces, {i}), total - big) : i \in top }

\* The block list after trimming.
Trim(s) ==
  IF Cardinality(s.black) + s.nmaybe < BlackMax THEN s
  ELSE [ s EXCEPT !.black = {}, !.maybe = s.black \cup s.maybe, !.nmaybe = BlackMax - 1 ]

EndSweep(s) ==
  LET left  == Total(s.traces, DOMAIN s.traces)
      over  == s.atStart > MaxSpans
      kept  == IF over THEN Shed(s.traces, left) ELSE { s.traces }
  IN { LET gone  == DOMAIN s.traces \ DOMAIN k
           ngone == Total(s.traces, gone)
       IN Trim([ s EXCEPT !.traces = k, !.busy = FALSE,
                          !.m.inflightTraces = Cardinality(DOMAIN s.traces),
                          !.m.inflightSpans = s.atStart,
                          !.m.discarded = @ + Cardinality(gone),
                          !.m.spansDiscarded = @ + ngone ])
       : k \in kept }

\* The check ends when the channel can take the rest of its traces.
InBox(s) == FoldLeft(LAMBDA n, g : n + Cardinality(DOMAIN g), 0, s.box)
HandOn(s) ==
  LET rest == Cardinality(DOMAIN s.pend) IN
  IF rest = 0 THEN EndSweep(s)
  ELSE IF InBox(s) + rest > s.room THEN { s }
  ELSE EndSweep([ s EXCEPT !.box = Append(@, s.pend), !.pend = [i \in {} |-> 0], !.m.finished = @ + rest ])

NextTick(t) == ((t \div Tick) + 1) * Tick

\* Decide a check at time t (at s.tick, or later if the loop was blocked then).
StepSweep(s, t) ==
  IF s.busy \/ t < s.tick THEN {}
  ELSE
  LET ids     == DOMAIN s.traces
      large   == { i \in ids : IsLarge(s.traces[i]) }
      count   == Total(s.traces, ids \ large)
      buf     == BufferTime(count)
      old     == { i \in ids \ large : IsOld(s.traces[i], t, buf) }
      quiet   == { i \in ids \ (large \cup old) : IsQuiet(s.traces[i], t, buf) }
      outcome == [ i \in quiet |-> Outcome(s.traces[i].spans, s.traces[i].mult, i) ]
      ok      == { i \in quiet : outcome[i].ok }
      \* a trace that gets a fake root merges nothing: its id is new
      s2      == [ s EXCEPT
                     !.now = t, !.tick = NextTick(t), !.busy = TRUE, !.atStart = count,
                     !.traces = Without(@, large \cup old \cup quiet),
                     !.black = @ \cup large \cup old,
                     !.pend = [ i \in ok |-> [ spans |-> outcome[i].spans, mult |-> s.traces[i].mult ] ],
                     !.m.toolarge = @ + Cardinality(large),
                     !.m.tooold = @ + Cardinality(old),
                     !.m.noroot = @ + Cardinality(quiet \ ok) ]
  IN HandOn(s2)

\* What the consumer may get next.
Offered(s) == IF s.box # <<>> THEN Head(s.box) ELSE s.pend

\* The consumer gets trace trid, with this content.
StepEmit(s, trid, spans, mult) ==
  IF ~s.stalled /\ trid \in DOMAIN Offered(s)
     /\ Offered(s)[trid].spans = spans /\ Offered(s)[trid].mult = mult
  THEN IF s.box # <<>>
       THEN LET left == Without(Head(s.box), {trid})
                s2 == [ s EXCEPT !.box = (IF DOMAIN left = {} THEN <<>> ELSE << left >>) \o Tail(@) ]
            IN IF s.busy THEN HandOn(s2) ELSE { s2 }
       ELSE HandOn([ s EXCEPT !.pend = Without(@, {trid}), !.m.finished = @ + 1 ])
  ELSE {}
=============================================================================
