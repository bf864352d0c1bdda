------------------------------- MODULE MCConsumer -------------------------------
(* The consumer as it is built: a loop around sessions, a loop over the messages  *)
(* of each claim.  All interleavings with messages arriving, sessions ending,     *)
(* attempts failing and the stop are behaviours of Consumer; every decodable      *)
(* message is handed over once, in order, and in the end all of them are.         *)
EXTENDS Consumer, TLC

CONSTANTS Parts, Msgs, Trouble      \* partitions, messages of each; sessions that end or fail by themselves

VARIABLES s, pc, ends, count, todo
vars == <<s, pc, ends, count, todo>>
\* pc: p -> what the claim's loop does: "take", "call", "mark", "gone"; count: p -> n -> callbacks
\* todo: p -> the message in hand

All == 1..Parts
Init == /\ s \in { Start([ p \in All |-> g ]) : g \in [ 1..Msgs -> BOOLEAN ] }
        /\ pc = [ p \in All |-> "gone" ] /\ ends = 0 /\ count = [ p \in All |-> [ n \in 1..Msgs |-> 0 ] ] /\ todo = [ p \in All |-> 0 ]

Begin == /\ s.sess = "none" /\ s.stop = "no"
         /\ \E ps \in SUBSET All :
              /\ (ps # All => ends < Trouble) /\ s' \in StepBegin(s, ps)
              /\ ends' = IF ps = All THEN ends ELSE ends + 1
              /\ pc' = [ p \in All |-> IF p \in ps THEN "take" ELSE "gone" ]
         /\ todo' = s'.mark /\ UNCHANGED count
Fail == s.stop = "no" /\ ends < Trouble /\ s' \in StepError(s) /\ ends' = ends + 1 /\ UNCHANGED <<pc, count, todo>>
Offer == \E p \in All : s.off[p] < Msgs /\ s.sess = "run" /\ s' \in StepOffer(s, p) /\ UNCHANGED <<pc, ends, count, todo>>
Take(p) == /\ pc[p] = "take" /\ todo[p] < s.off[p]
           /\ todo' = [ todo EXCEPT ![p] = @ + 1 ]
           /\ pc' = [ pc EXCEPT ![p] = IF s.good[p][todo[p] + 1] THEN "call" ELSE "take" ]
           /\ UNCHANGED <<s, ends, count>>
Call(p) == /\ pc[p] = "call" /\ s' \in StepCall(s, p, todo[p]) /\ count' = [ count EXCEPT ![p][todo[p]] = @ + 1 ]
           /\ pc' = [ pc EXCEPT ![p] = "return" ] /\ UNCHANGED <<ends, todo>>
Return(p) == /\ pc[p] = "return" /\ s' \in StepReturn(s, p, todo[p]) /\ pc' = [ pc EXCEPT ![p] = "mark" ] /\ UNCHANGED <<ends, count, todo>>
Mark(p) == /\ pc[p] = "mark" /\ s' \in StepMark(s, p, todo[p]) /\ pc' = [ pc EXCEPT ![p] = "take" ] /\ UNCHANGED <<ends, count, todo>>
\* the channel of the claim is closed (what is still in it may be thrown away)
Leave(p) == /\ pc[p] = "take" /\ s.sess = "ending" /\ s' \in StepClaimEnd(s, p)
            /\ pc' = [ pc EXCEPT ![p] = "gone" ] /\ UNCHANGED <<ends, count, todo>>
Ending == /\ s' \in StepEnding(s)
          /\ IF s.stop = "asked" THEN ends' = ends ELSE ends < Trouble /\ ends' = ends + 1
          /\ UNCHANGED <<pc, count, todo>>
\* a session that was given only some partitions ends when there is a rebalance
Rebalance == s.sess = "run" /\ s.open # All /\ s' \in StepEnding(s) /\ UNCHANGED <<pc, ends, count, todo>>
End == s' \in StepEnd(s) /\ UNCHANGED <<pc, ends, count, todo>>
Stop == s' \in StepStop(s) /\ UNCHANGED <<pc, ends, count, todo>>
Stopped == s' \in StepStopped(s) /\ UNCHANGED <<pc, ends, count, todo>>
Claim(p) == Take(p) \/ Call(p) \/ Return(p) \/ Mark(p) \/ Leave(p)
Next == Begin \/ Fail \/ Offer \/ Ending \/ Rebalance \/ End \/ Stop \/ Stopped \/ \E p \in All : Claim(p)
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Begin) /\ WF_vars(Offer) /\ WF_vars(End) /\ WF_vars(Stopped) /\ WF_vars(Rebalance)
        /\ WF_vars(Ending /\ s.stop = "asked") /\ \A p \in All : WF_vars(Claim(p))

\* the loop never gets stuck between two steps of the specification
NotStuck == \A p \in All : /\ pc[p] = "call" => StepCall(s, p, todo[p]) # {}
                           /\ pc[p] = "mark" => StepMark(s, p, todo[p]) # {}
Once == \A p \in All, n \in 1..Msgs : count[p][n] <= (IF s.good[p][n] THEN 1 ELSE 0)
InOrder == \A p \in All, n \in 1..Msgs : \A i \in 1..n - 1 : count[p][n] = 1 /\ s.good[p][i] => count[p][i] = 1
OnlyHanded == \A p \in All : \A n \in 1..s.mark[p] : s.good[p][n] => count[p][n] = 1
AfterStop == s.stop = "done" => s.sess = "none" /\ s.open = {}
Everything == \A p \in All, n \in 1..Msgs : s.good[p][n] => count[p][n] = 1
Delivered == <>(Everything \/ s.stop # "no")
Stops == (s.stop = "asked") ~> (s.stop = "done")
=================================================================================
