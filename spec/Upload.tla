--------------------------------- MODULE Upload ---------------------------------
(***************************************************************************)
(* Uploads at the same time (handlers.go): each is read and parsed to its  *)
(* end, then its spans are put into the bounded channel to the processing, *)
(* one after the other, then it is answered.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Uploads, Spans, Capacity
\* every upload has Spans spans

VARIABLES pc,       \* upload -> "reading", "sending", 202 or 400
          good,     \* upload -> is its body accepted
          sent,     \* upload -> spans put into the channel
          chan,     \* the channel: <<upload, number of span>>
          taken     \* what the processing has taken from it
vars == << pc, good, sent, chan, taken >>

Init ==
  /\ pc = [ u \in Uploads |-> "reading" ] /\ good \in [ Uploads -> BOOLEAN ]
  /\ sent = [ u \in Uploads |-> 0 ] /\ chan = <<>> /\ taken = <<>>

Parse(u) ==
  /\ pc[u] = "reading" /\ pc' = [ pc EXCEPT ![u] = IF good[u] THEN "sending" ELSE "400" ]
  /\ UNCHANGED << good, sent, chan, taken >>
Send(u) ==
  /\ pc[u] = "sending" /\ sent[u] < Spans /\ Len(chan) < Capacity
  /\ sent' = [ sent EXCEPT ![u] = @ + 1 ] /\ chan' = Append(chan, << u, sent[u] + 1 >>)
  /\ UNCHANGED << pc, good, taken >>
Answer(u) ==
  /\ pc[u] = "sending" /\ sent[u] = Spans /\ pc' = [ pc EXCEPT ![u] = "202" ]
  /\ UNCHANGED << good, sent, chan, taken >>
Take ==
  /\ chan # <<>> /\ taken' = Append(taken, chan[1]) /\ chan' = Tail(chan) /\ UNCHANGED << pc, good, sent >>
Next == Take \/ \E u \in Uploads : Parse(u) \/ Send(u) \/ Answer(u)
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ \A u \in Uploads : WF_vars(Parse(u)) /\ SF_vars(Send(u)) /\ WF_vars(Answer(u))

-----------------------------------------------------------------------------
Entered == taken \o chan
Of(u) == SelectSeq(Entered, LAMBDA x : x[1] = u)
Whole == \A u \in Uploads : /\ pc[u] = "202" => Of(u) = [ i \in 1..Spans |-> << u, i >> ]
                            /\ pc[u] \in { "reading", "400" } => Of(u) = <<>>
InOrder == \A u \in Uploads : Of(u) = [ i \in 1..Len(Of(u)) |-> << u, i >> ]
Answered == \A u \in Uploads : <>(pc[u] = IF good[u] THEN "202" ELSE "400")
Processed == <>[](Len(taken) = Spans * Cardinality({ u \in Uploads : good[u] }))
=================================================================================
