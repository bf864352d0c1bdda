-------------------------------- MODULE Producer --------------------------------
(***************************************************************************)
(* Sending spans to Kafka (balance/sender.go, balance/encoder.go).  Spans  *)
(* are numbers; trace[n] is the number of the span's trace, whose id is    *)
(* ids[t], given as its 16 hex digits.                                     *)
(*                                                                         *)
(*   offered  spans put into an input of a sender                          *)
(*   must     spans that were taken while nothing was wrong                *)
(*   got      spans that arrived at the broker                             *)
(*   part     the partition of each trace that was seen (0: none)          *)
(*   well     nothing is wrong with the broker                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start(traces) == [ offered |-> {}, must |-> {}, got |-> {}, part |-> [ t \in 1..traces |-> 0 ], well |-> TRUE ]

\* The key of a message: the trace id as 8 bytes, the least significant first.
Key(id) == [ i \in 1..8 |-> (16 * id[17 - (2 * i)]) + id[18 - (2 * i)] ]

StepOffer(s, n) == [ s EXCEPT !.offered = @ \cup {n} ]
\* big: the message is too large for Kafka
StepTaken(s, n, big) == [ s EXCEPT !.must = IF s.well /\ ~big THEN @ \cup {n} ELSE @ ]

\* A message arrives: of a span that was sent, once, in the partition of the trace.  A message
\* that was sent while something was wrong may arrive twice.
CanArrive(s, n, t, p, key, id) ==
  /\ n \in s.offered
  /\ n \in s.got => n \notin s.must
  /\ key = Key(id)
  /\ s.part[t] \in {0, p}
StepArrive(s, n, t, p) == [ s EXCEPT !.got = @ \cup {n}, !.part[t] = p ]

StepTrouble(s) == [ s EXCEPT !.well = FALSE, !.must = @ \cap s.got ]   \* what is still on its way may be lost
StepHealed(s) == [ s EXCEPT !.well = TRUE ]

Rest(s) == s.must \subseteq s.got
=================================================================================
