---------------------------------- MODULE Group ----------------------------------
(***************************************************************************)
(* The members of a consumer group (balance/receiver.go with the groups of *)
(* Kafka): they share out the partitions of the topic, remember at the     *)
(* broker how far they are, come and go, crash and lose their connections. *)
(* good[p][i] tells whether message i of partition p can be decoded.       *)
(*                                                                         *)
(*   low    p -> messages 1..low were deleted                              *)
(*   comm   p -> messages 1..comm are committed                            *)
(*   by     p -> who took each message last (0: nobody)                    *)
(*   done   p -> messages that were handed over                            *)
(*   again  p -> messages that may be handed over once more: whoever took  *)
(*          them got into trouble before they were committed               *)
(*   pos    p -> function: member -> messages it went through              *)
(*   busy   p -> function: member -> the message being handed over, or 0   *)
(*   ill    members that got into trouble since their last claims          *)
(*   alive  members that run                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Start(parts) ==
  LET each(v) == [ p \in 1..parts |-> v ] IN
  [ good |-> each(<<>>), low |-> each(0), comm |-> each(0), by |-> each(<<>>), done |-> each({}), again |-> each({}),
    pos |-> each(<<>>), busy |-> each(<<>>), ill |-> {}, alive |-> {} ]

Put(f, m, v) == (m :> v) @@ f
Parts(s) == DOMAIN s.good

StepPublish(s, p, good) ==
  { [ s EXCEPT !.good[p] = @ \o good, !.by[p] = @ \o [ i \in DOMAIN good |-> 0 ] ] }
StepRetain(s, p, n) == { [ s EXCEPT !.low[p] = IF n > @ THEN n ELSE @ ] }
StepJoin(s, m) == { [ s EXCEPT !.alive = @ \cup {m} ] }

\* The member asks where to begin. It has finished with the partition before, unless it got into trouble.
StepClaim(s, m, p) ==
  LET begins == { [ s EXCEPT !.pos[p] = Put(@, m, s.comm[p]), !.busy[p] = Put(@, m, 0), !.ill = @ \ {m} ] } IN
  IF m \in DOMAIN s.busy[p] /\ s.busy[p][m] # 0 /\ m \notin s.ill THEN {} ELSE begins

\* what is between is not there or can not be decoded
Skipped(s, p, from, n) == \A i \in from + 1..n - 1 : ~s.good[p][i] \/ i <= s.low[p]
StepCall(s, m, p, n) ==
  IF /\ m \in s.alive /\ m \in DOMAIN s.pos[p] /\ s.busy[p][m] = 0
     /\ n > s.pos[p][m] /\ n <= Len(s.good[p]) /\ s.good[p][n] /\ Skipped(s, p, s.pos[p][m], n)
     /\ s.by[p][n] = 0 \/ n \in s.again[p] \/ m \in s.ill
  THEN { [ s EXCEPT !.busy[p][m] = n, !.by[p][n] = m, !.again[p] = IF m \in s.ill THEN @ \cup {n} ELSE @ \ {n} ] }
  ELSE {}
StepReturn(s, m, p, n) ==
  IF m \in DOMAIN s.busy[p] /\ s.busy[p][m] = n
  THEN { [ s EXCEPT !.busy[p][m] = 0, !.pos[p][m] = n, !.done[p] = @ \cup {n} ] } ELSE {}

\* Messages 1..n are committed: they were handed over, as far as they are there and can be.
StepCommit(s, m, p, n) ==
  IF n >= s.comm[p] /\ n <= Len(s.good[p]) /\ \A i \in s.comm[p] + 1..n : s.good[p][i] /\ i > s.low[p] => i \in s.done[p]
  THEN { [ s EXCEPT !.comm[p] = n ] } ELSE {}

\* A member dies, is expelled, or loses its connections.
Pending(s, m, p) == { i \in s.comm[p] + 1..Len(s.by[p]) : s.by[p][i] = m }
StepTrouble(s, m) ==
  { [ s EXCEPT !.ill = @ \cup {m}, !.again = [ p \in Parts(s) |-> @[p] \cup Pending(s, m, p) ] ] }

\* A member that stopped well has committed what it handed over.
StepStop(s, m) == {s}
StepStopped(s, m) ==
  IF \A p \in Parts(s) : /\ m \in DOMAIN s.busy[p] => s.busy[p][m] = 0
                         /\ \A i \in Pending(s, m, p) : i <= s.low[p] \/ i \in s.again[p]
  THEN { [ s EXCEPT !.alive = @ \ {m} ] } ELSE {}

\* After a long time of quiet: everything is handed over and committed.
Rest(s) ==
  \A p \in Parts(s) : \A i \in DOMAIN s.good[p] :
    s.good[p][i] /\ i > s.low[p] => i \in s.done[p] /\ i <= s.comm[p]
==================================================================================
