------------------------------- MODULE MCForward -------------------------------
(* The forwarder as it is built: one loop that converts a trace and then sends  *)
(* it to one target after the other, through bounded channels.  Every           *)
(* interleaving with the targets is a behaviour of Forward.                     *)
EXTENDS Forward, TLC

CONSTANTS Targets, Traces, Cap    \* number of targets and traces; capacity of the channels

VARIABLES s, src, pc, cur, chan, seen
vars == <<s, src, pc, cur, chan, seen>>
\* pc: <<"idle">>, <<"conv", i>>, <<"send", target>>; cur: values of the trace in work
\* chan: target -> queue; seen: target -> what it has received

Kinds == {TRUE, FALSE}
Init == /\ s = Start(1..Targets) /\ src = <<>> /\ pc = <<"idle">> /\ cur = <<>>
        /\ chan = [ x \in 1..Targets |-> <<>> ] /\ seen = [ x \in 1..Targets |-> <<>> ]
Give == \E n \in 0..2 :
        /\ Len(s.traces) < Traces /\ pc = <<"idle">>
        /\ LET t == [ i \in 1..n |-> 10 * (Len(s.traces) + 1) + i ] IN
             s' \in StepGive(s, t) /\ src' = t
        /\ pc' = <<"conv", 1>> /\ cur' = <<>> /\ UNCHANGED <<chan, seen>>
Convert == /\ pc[1] = "conv" /\ pc[2] <= Len(src)
           /\ \E k \in Kinds :
                /\ s' \in StepConvert(s, src[pc[2]], k, -src[pc[2]])
                /\ cur' = IF k THEN Append(cur, -src[pc[2]]) ELSE cur
           /\ pc' = <<"conv", pc[2] + 1>> /\ UNCHANGED <<src, chan, seen>>
Turn == /\ pc[1] = "conv" /\ pc[2] > Len(src) /\ pc' = <<"send", 1>> /\ UNCHANGED <<s, src, cur, chan, seen>>
Send == /\ pc[1] = "send" /\ pc[2] <= Targets /\ Len(chan[pc[2]]) < Cap
        /\ chan' = [ chan EXCEPT ![pc[2]] = Append(@, cur) ]
        /\ pc' = IF pc[2] = Targets THEN <<"idle">> ELSE <<"send", pc[2] + 1>>
        /\ UNCHANGED <<s, src, cur, seen>>
\* (a trace of which nothing is left could also be skipped; this loop sends it)
Took(x) == [ s EXCEPT !.got[x] = @ + 1 ]
Receive == \E x \in 1..Targets :
        /\ chan[x] # <<>>
        /\ s' = Took(x)
        /\ seen' = [ seen EXCEPT ![x] = Append(@, Head(chan[x])) ]
        /\ chan' = [ chan EXCEPT ![x] = Tail(@) ]
        /\ UNCHANGED <<src, pc, cur>>
Next == Give \/ Convert \/ Turn \/ Send \/ Receive
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what the targets take out of their channels, the specification always accepts
Accepted == \A x \in 1..Targets : chan[x] # <<>> => Took(x) \in StepReceive(s, x, Head(chan[x]))
Prefix == \A x \in 1..Targets : IsPrefix(SelectSeq(seen[x], LAMBDA t : t # <<>>), All(s))
\* when all is quiet, everybody has everything
Quiet == pc = <<"idle">> /\ \A x \in 1..Targets : chan[x] = <<>>
NothingLost == Quiet => /\ Finished(s)
                        /\ \A x \in 1..Targets : SelectSeq(seen[x], LAMBDA t : t # <<>>) = All(s)
Ends == <>[](Quiet /\ Len(s.traces) = Traces)
================================================================================
