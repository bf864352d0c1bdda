-------------------------------- MODULE Consumer --------------------------------
(***************************************************************************)
(* Reading the partitions of the topic in a consumer group                 *)
(* (balance/receiver.go).  Partition p holds the messages 1..n; good[p][i] *)
(* tells whether message i can be decoded.                                 *)
(*                                                                         *)
(*   mark   p -> messages 1..mark are marked as consumed                   *)
(*   sess   "none", "run" (a session), "ending" (it was asked to end)      *)
(*   off    p -> messages up to off were offered in this session           *)
(*   pos    p -> messages up to pos were handed over or skipped            *)
(*   busy   p -> the message whose callback is running, or 0               *)
(*   open   the partitions whose claim is being consumed                   *)
(*   stop   "no", "asked", "done"                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start(good) ==
  LET zero == [ p \in DOMAIN good |-> 0 ] IN
  [ good |-> good, mark |-> zero, sess |-> "none", off |-> zero, pos |-> zero, busy |-> zero, open |-> {}, stop |-> "no" ]

\* A session begins for some partitions, each at the first message that is not marked.
StepBegin(s, ps) ==
  IF s.sess # "none" \/ s.stop = "done" THEN {}
  ELSE { [ s EXCEPT !.sess = "run", !.open = ps, !.off = s.mark, !.pos = s.mark ] }
\* The attempt fails.
StepError(s) == IF s.sess # "none" \/ s.stop = "done" THEN {} ELSE {s}

StepOffer(s, p) == IF p \in s.open THEN { [ s EXCEPT !.off[p] = @ + 1 ] } ELSE {}

Skipped(s, p, n) == \A i \in s.pos[p] + 1..n - 1 : ~s.good[p][i]
StepCall(s, p, n) ==
  IF p \in s.open /\ s.busy[p] = 0 /\ n > s.pos[p] /\ n <= s.off[p] /\ s.good[p][n] /\ Skipped(s, p, n)
  THEN { [ s EXCEPT !.busy[p] = n ] } ELSE {}
StepReturn(s, p, n) ==
  IF s.busy[p] = n THEN { [ s EXCEPT !.busy[p] = 0, !.pos[p] = n ] } ELSE {}

\* Message n is marked, which marks all before it: its span was handed over.
StepMark(s, p, n) ==
  IF p \in s.open /\ n \in 1..s.pos[p] /\ s.good[p][n]
  THEN { [ s EXCEPT !.mark[p] = IF n > @ THEN n ELSE @ ] } ELSE {}

StepEnding(s) == IF s.sess = "run" THEN { [ s EXCEPT !.sess = "ending" ] } ELSE {}
\* what was handed over is marked
Marked(s, p) == s.busy[p] = 0 /\ s.pos[p] <= s.mark[p]
StepClaimEnd(s, p) ==
  IF p \in s.open /\ s.sess = "ending" /\ Marked(s, p) THEN { [ s EXCEPT !.open = @ \ {p} ] } ELSE {}
StepEnd(s) == IF s.sess = "ending" /\ s.open = {} THEN { [ s EXCEPT !.sess = "none" ] } ELSE {}

StepStop(s) == IF s.stop = "no" THEN { [ s EXCEPT !.stop = "asked" ] } ELSE {}
StepStopped(s) == IF s.stop = "asked" /\ s.sess = "none" THEN { [ s EXCEPT !.stop = "done" ] } ELSE {}

\* Nothing goes on any more: there is a session unless it was stopped, and everything
\* that was offered is handed over and marked.
Rest(s) ==
  IF s.stop = "no"
  THEN s.sess = "run" /\ \A p \in s.open : Marked(s, p) /\ \A i \in s.pos[p] + 1..s.off[p] : ~s.good[p][i]
  ELSE s.stop = "done"
=================================================================================
