-------------------------------- MODULE MCSender --------------------------------
(* The sender and the producer's channels: spans come in one at a time, the       *)
(* producer delivers or fails, failures go to a bounded channel that somebody      *)
(* takes them from.  Every span is taken, and all that can be delivered are.       *)
EXTENDS Producer, TLC
CONSTANTS Spans, Cap

VARIABLES s, in, inflight, errors, next
vars == <<s, in, inflight, errors, next>>
Init == s = Start(1) /\ in = <<>> /\ inflight = <<>> /\ errors = 0 /\ next = 1
Big == { n \in 1..Spans : n % 3 = 1 }
Id == [ i \in 1..16 |-> 1 ]
Offer == /\ next <= Spans /\ in = <<>> /\ s' = StepOffer(s, next) /\ in' = << next >> /\ next' = next + 1 /\ UNCHANGED <<inflight, errors>>
Take == /\ in # <<>> /\ Len(inflight) < Cap /\ s' = StepTaken(s, in[1], in[1] \in Big)
        /\ inflight' = Append(inflight, in[1]) /\ in' = <<>> /\ UNCHANGED <<errors, next>>
Deliver == /\ inflight # <<>> /\ Head(inflight) \notin Big /\ s.well
           /\ CanArrive(s, Head(inflight), 1, 1, Key(Id), Id)
           /\ s' = StepArrive(s, Head(inflight), 1, 1) /\ inflight' = Tail(inflight) /\ UNCHANGED <<in, errors, next>>
Fail == /\ inflight # <<>> /\ (Head(inflight) \in Big \/ ~s.well) /\ errors < Cap
        /\ inflight' = Tail(inflight) /\ errors' = errors + 1 /\ UNCHANGED <<s, in, next>>
Drain == errors > 0 /\ errors' = errors - 1 /\ UNCHANGED <<s, in, inflight, next>>
Trouble == s.well /\ next < 4 /\ s' = StepTrouble(s) /\ UNCHANGED <<in, inflight, errors, next>>
Heal == ~s.well /\ s' = StepHealed(s) /\ UNCHANGED <<in, inflight, errors, next>>
Next == Offer \/ Take \/ Deliver \/ Fail \/ Drain \/ Trouble \/ Heal
Spec == Init /\ [][Next]_vars /\ WF_vars(Offer) /\ WF_vars(Take) /\ WF_vars(Deliver) /\ WF_vars(Fail) /\ WF_vars(Drain) /\ WF_vars(Heal)
AllTaken == <>[](next > Spans /\ in = <<>> /\ inflight = <<>>)
Delivered == <>[](Rest(s))
Failed == \A n \in Big : n \notin s.got
=================================================================================
