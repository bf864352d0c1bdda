-------------------------------- MODULE Forward --------------------------------
(***************************************************************************)
(* Handing traces to the targets (main.go: forwardSpansToChannels).  A     *)
(* trace is a sequence of span numbers.  The converter makes a value of    *)
(* each span, or fails; a value is <<ok, v>>, ok telling whether the span  *)
(* is to be kept.                                                          *)
(*                                                                         *)
(*   traces  the traces taken from the source so far                       *)
(*   out     for each of them the values made of its spans so far          *)
(*   got     function: target -> number of traces it has received          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Start(targets) == [ traces |-> <<>>, out |-> <<>>, got |-> [ x \in targets |-> 0 ] ]

\* the trace being converted: the first one that is not completely so
Open(s) == { i \in DOMAIN s.traces : Len(s.out[i]) < Len(s.traces[i])
                                    /\ \A j \in 1..(i - 1) : Len(s.out[j]) = Len(s.traces[j]) }

Kept(vals) == LET k == SelectSeq(vals, LAMBDA v : v[1]) IN [ i \in DOMAIN k |-> k[i][2] ]

StepGive(s, spans) == { [ s EXCEPT !.traces = Append(@, spans), !.out = Append(@, <<>>) ] }

\* the converter is called for span n, and makes this of it
StepConvert(s, n, ok, v) ==
  { [ s EXCEPT !.out[i] = Append(@, <<ok, v>>) ] : i \in { j \in Open(s) : s.traces[j][Len(s.out[j]) + 1] = n } }

Complete(s, i) == i <= Len(s.traces) /\ Len(s.out[i]) = Len(s.traces[i])

\* a target receives a trace.  Whether a trace of which nothing is left is sent at all is left open.
RECURSIVE StepReceive(_, _, _)
StepReceive(s, x, vals) ==
  LET i == s.got[x] + 1 IN
  IF ~Complete(s, i) THEN {}
  ELSE (IF Kept(s.out[i]) = vals THEN { [ s EXCEPT !.got[x] = i ] } ELSE {})
       \cup (IF Kept(s.out[i]) = <<>> THEN StepReceive([ s EXCEPT !.got[x] = i ], x, vals) ELSE {})

\* all that a target should have received in the end
All(s) == SelectSeq([ i \in DOMAIN s.traces |-> Kept(s.out[i]) ], LAMBDA t : t # <<>>)

\* everything has arrived everywhere
Finished(s) == /\ \A i \in DOMAIN s.traces : Complete(s, i)
               /\ \A x \in DOMAIN s.got : \A i \in DOMAIN s.traces : i > s.got[x] => Kept(s.out[i]) = <<>>
================================================================================
