-------------------------------- MODULE Pipeline --------------------------------
(***************************************************************************)
(* The assembled program (main.go): how the parts are put together.  One   *)
(* or more proxies; with Shared, they exchange their spans through a topic *)
(* whose partitions (one per trace here) are shared out among them.        *)
(*                                                                         *)
(*   upload -> input -> [sender -> topic -> consumer -> kafka input ->]    *)
(*   aggregation -> processed -> converter -> agent queue -> batches       *)
(*                                         -> view queue  -> view          *)
(*                                                                         *)
(* All channels hold Cap elements.  A span is <<trace, upload, number>>.   *)
(* The aggregation hands on what it has of a trace when it pleases, or, if *)
(* Timely, only once all accepted uploads with the trace have arrived.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Nodes, Uploads, Traces, Cap, Shared, Timely, Ring, Dropped
\* Ring: size of the view; Dropped: spans the converter does not let through

CONSTANTS Doc(_), At(_)   \* the spans (<<trace, upload, number>>) of an upload, and the proxy it goes to

VARIABLES pc, sent,        \* upload -> "reading", "sending", "202", "400"; spans put into the input
          inp,             \* proxy -> input channel
          topic, off, kin, \* trace -> messages; messages consumed; proxy -> channel from the consumer
          bag, due, proc,  \* proxy -> trace -> spans; traces being handed on; channel of traces
          cur,             \* proxy -> <<>> or <<spans, next target>>
          qa, qv,          \* proxy -> channel of the agent, of the view
          pend, agent,     \* proxy -> spans of the next batch; batches submitted
          ring, log        \* proxy -> the view; everything the view was ever given
vars == << pc, sent, inp, topic, off, kin, bag, due, proc, cur, qa, qv, pend, agent, ring, log >>

Owner(t) == CHOOSE n \in Nodes : \E S \in {Nodes} : n = ((t - 1) % Cardinality(S)) + 1
Range(q) == { q[i] : i \in DOMAIN q }
Without(q) == SelectSeq(q, LAMBDA x : x \notin Dropped)

Init ==
  /\ pc = [ u \in Uploads |-> "reading" ] /\ sent = [ u \in Uploads |-> 0 ]
  /\ inp = [ n \in Nodes |-> <<>> ] /\ topic = [ t \in Traces |-> <<>> ] /\ off = [ t \in Traces |-> 0 ]
  /\ kin = [ n \in Nodes |-> <<>> ] /\ bag = [ n \in Nodes |-> [ t \in Traces |-> <<>> ] ]
  /\ due = [ n \in Nodes |-> {} ] /\ proc = [ n \in Nodes |-> <<>> ] /\ cur = [ n \in Nodes |-> <<>> ]
  /\ qa = [ n \in Nodes |-> <<>> ] /\ qv = [ n \in Nodes |-> <<>> ] /\ pend = [ n \in Nodes |-> <<>> ]
  /\ agent = <<>> /\ ring = [ n \in Nodes |-> <<>> ] /\ log = [ n \in Nodes |-> <<>> ]

Parse(u) ==
  /\ pc[u] = "reading" /\ pc' = [ pc EXCEPT ![u] = IF Doc(u) = <<>> THEN "400" ELSE "sending" ]
  /\ UNCHANGED << sent, inp, topic, off, kin, bag, due, proc, cur, qa, qv, pend, agent, ring, log >>
Put(u) ==
  /\ pc[u] = "sending" /\ sent[u] < Len(Doc(u)) /\ Len(inp[At(u)]) < Cap
  /\ inp' = [ inp EXCEPT ![At(u)] = Append(@, Doc(u)[sent[u] + 1]) ] /\ sent' = [ sent EXCEPT ![u] = @ + 1 ]
  /\ UNCHANGED << pc, topic, off, kin, bag, due, proc, cur, qa, qv, pend, agent, ring, log >>
Answer(u) ==
  /\ pc[u] = "sending" /\ sent[u] = Len(Doc(u)) /\ pc' = [ pc EXCEPT ![u] = "202" ]
  /\ UNCHANGED << sent, inp, topic, off, kin, bag, due, proc, cur, qa, qv, pend, agent, ring, log >>

\* the sender (the producer's own buffers are left out, see MCSender)
Produce(n) ==
  /\ Shared /\ inp[n] # <<>> /\ inp' = [ inp EXCEPT ![n] = Tail(@) ]
  /\ topic' = [ topic EXCEPT ![inp[n][1][1]] = Append(@, inp[n][1]) ]
  /\ UNCHANGED << pc, sent, off, kin, bag, due, proc, cur, qa, qv, pend, agent, ring, log >>
Consume(t) ==
  /\ Shared /\ off[t] < Len(topic[t]) /\ Len(kin[Owner(t)]) < Cap
  /\ kin' = [ kin EXCEPT ![Owner(t)] = Append(@, topic[t][off[t] + 1]) ] /\ off' = [ off EXCEPT ![t] = @ + 1 ]
  /\ UNCHANGED << pc, sent, inp, topic, bag, due, proc, cur, qa, qv, pend, agent, ring, log >>

\* The aggregation takes no spans while it hands traces on.
Source(n) == IF Shared THEN kin[n] ELSE inp[n]
Collect(n) ==
  /\ due[n] = {} /\ Source(n) # <<>>
  /\ LET sp == Source(n)[1] IN bag' = [ bag EXCEPT ![n][sp[1]] = Append(@, sp) ]
  /\ IF Shared THEN kin' = [ kin EXCEPT ![n] = Tail(@) ] /\ UNCHANGED inp
     ELSE inp' = [ inp EXCEPT ![n] = Tail(@) ] /\ UNCHANGED kin
  /\ UNCHANGED << pc, sent, topic, off, due, proc, cur, qa, qv, pend, agent, ring, log >>

Expected(t) == { x \in UNION { Range(Doc(u)) : u \in Uploads } : x[1] = t }
Ready(n, t) == bag[n][t] # <<>> /\ (Timely => Range(bag[n][t]) = Expected(t))
Sweep(n) ==
  /\ due[n] = {} /\ \E d \in SUBSET { t \in Traces : Ready(n, t) } : d # {} /\ due' = [ due EXCEPT ![n] = d ]
  /\ UNCHANGED << pc, sent, inp, topic, off, kin, bag, proc, cur, qa, qv, pend, agent, ring, log >>
HandOn(n) ==
  /\ Len(proc[n]) < Cap
  /\ \E t \in due[n] : /\ due' = [ due EXCEPT ![n] = @ \ {t} ] /\ proc' = [ proc EXCEPT ![n] = Append(@, bag[n][t]) ]
                       /\ bag' = [ bag EXCEPT ![n][t] = <<>> ]
  /\ UNCHANGED << pc, sent, inp, topic, off, kin, cur, qa, qv, pend, agent, ring, log >>

Convert(n) ==
  /\ cur[n] = <<>> /\ proc[n] # <<>> /\ proc' = [ proc EXCEPT ![n] = Tail(@) ] /\ cur' = [ cur EXCEPT ![n] = << Without(proc[n][1]), "agent" >> ]
  /\ UNCHANGED << pc, sent, inp, topic, off, kin, bag, due, qa, qv, pend, agent, ring, log >>
ToAgent(n) ==
  /\ cur[n] # <<>> /\ cur[n][2] = "agent" /\ Len(qa[n]) < Cap
  /\ qa' = [ qa EXCEPT ![n] = Append(@, cur[n][1]) ] /\ cur' = [ cur EXCEPT ![n][2] = "view" ]
  /\ UNCHANGED << pc, sent, inp, topic, off, kin, bag, due, proc, qv, pend, agent, ring, log >>
ToView(n) ==
  /\ cur[n] # <<>> /\ cur[n][2] = "view" /\ Len(qv[n]) < Cap
  /\ qv' = [ qv EXCEPT ![n] = Append(@, cur[n][1]) ] /\ cur' = [ cur EXCEPT ![n] = <<>> ]
  /\ UNCHANGED << pc, sent, inp, topic, off, kin, bag, due, proc, qa, pend, agent, ring, log >>

Sink(n) ==
  /\ qa[n] # <<>> /\ qa' = [ qa EXCEPT ![n] = Tail(@) ] /\ pend' = [ pend EXCEPT ![n] = @ \o qa[n][1] ]
  /\ UNCHANGED << pc, sent, inp, topic, off, kin, bag, due, proc, cur, qv, agent, ring, log >>
\* the agent keeps up
Flush(n) ==
  /\ pend[n] # <<>> /\ agent' = Append(agent, pend[n]) /\ pend' = [ pend EXCEPT ![n] = <<>> ]
  /\ UNCHANGED << pc, sent, inp, topic, off, kin, bag, due, proc, cur, qa, qv, ring, log >>
Last(q) == IF Len(q) <= Ring THEN q ELSE SubSeq(q, Len(q) - Ring + 1, Len(q))
RECURSIVE Write(_, _)
Write(r, q) == IF q = <<>> THEN r ELSE Write(Last(Append(r, q[1])), Tail(q))
View(n) ==
  /\ qv[n] # <<>> /\ qv' = [ qv EXCEPT ![n] = Tail(@) ]
  /\ ring' = [ ring EXCEPT ![n] = Write(@, qv[n][1]) ] /\ log' = [ log EXCEPT ![n] = @ \o qv[n][1] ]
  /\ UNCHANGED << pc, sent, inp, topic, off, kin, bag, due, proc, cur, qa, pend, agent >>

Step(n) == Produce(n) \/ Collect(n) \/ Sweep(n) \/ HandOn(n) \/ Convert(n) \/ ToAgent(n) \/ ToView(n) \/ Sink(n) \/ Flush(n) \/ View(n)
Next == \/ \E u \in Uploads : Parse(u) \/ Put(u) \/ Answer(u)
        \/ \E t \in Traces : Consume(t)
        \/ \E n \in Nodes : Step(n)
Fair == /\ \A u \in Uploads : WF_vars(Parse(u)) /\ SF_vars(Put(u)) /\ WF_vars(Answer(u))
        /\ \A t \in Traces : SF_vars(Consume(t))
        /\ \A n \in Nodes : /\ WF_vars(Produce(n)) /\ SF_vars(Collect(n)) /\ SF_vars(Sweep(n)) /\ WF_vars(HandOn(n)) /\ WF_vars(Convert(n))
                            /\ WF_vars(ToAgent(n)) /\ WF_vars(ToView(n)) /\ WF_vars(Sink(n)) /\ WF_vars(Flush(n)) /\ WF_vars(View(n))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Distinct(q) == Cardinality(Range(q)) = Len(q)
\* what was let through of accepted uploads
Given == UNION { IF pc[u] = "400" THEN {} ELSE { Doc(u)[i] : i \in 1..sent[u] } : u \in Uploads } \ Dropped
Accepted == UNION { Range(Doc(u)) : u \in Uploads } \ Dropped

Once == Distinct(Cat(agent)) /\ \A n \in Nodes : Distinct(log[n])
Genuine == Range(Cat(agent)) \subseteq Given /\ \A n \in Nodes : Range(log[n]) \subseteq Given
ViewIsLast == \A n \in Nodes : ring[n] = Last(log[n])
\* no trace is torn apart
OneProxy == \A n, m \in Nodes : \A x \in Range(log[n]), y \in Range(log[m]) : x[1] = y[1] => n = m
WholeTraces == Timely => \A i, j \in DOMAIN agent : \A x \in Range(agent[i]), y \in Range(agent[j]) : x[1] = y[1] => i = j
Answered == \A u \in Uploads : <>(pc[u] = IF Doc(u) = <<>> THEN "400" ELSE "202")
Delivered == <>[](Range(Cat(agent)) = Accepted /\ UNION { Range(log[n]) : n \in Nodes } = Accepted)
=================================================================================
