--------------------------------- MODULE MCPage ---------------------------------
(***************************************************************************)
(* Uploads at the same time, the aggregation and a reader of the page: the *)
(* counts that it reads lie between Lo and Hi, and are exact in the end.   *)
(***************************************************************************)
EXTENDS Page, TLC
VARIABLES pc, count, buffered, done, gone, ask, shown
vars == << pc, count, buffered, done, gone, ask, shown >>

T(s, d, r, same, b) == [ spans |-> s, distinct |-> d, roots |-> r, same |-> same, black |-> b ]
Us == << [ fmt |-> "json-v1", ok |-> TRUE, timed |-> TRUE, invalid |-> 1, traces |-> << T(3, 2, 1, FALSE, FALSE), T(2, 2, 2, FALSE, FALSE) >> ],
         [ fmt |-> "json-v1", ok |-> FALSE, timed |-> FALSE, invalid |-> 0, traces |-> <<>> ],
         [ fmt |-> "jaeger", ok |-> FALSE, timed |-> TRUE, invalid |-> 0, traces |-> <<>> ],
         [ fmt |-> "json-v2", ok |-> TRUE, timed |-> TRUE, invalid |-> 0, traces |-> << T(2, 2, 2, TRUE, FALSE), T(4, 4, 1, FALSE, TRUE) >> ] >>
U == DOMAIN Us
Init == /\ pc = [ u \in U |-> "new" ] /\ count = [ key \in Keys |-> 0 ] /\ buffered = {} /\ done = {} /\ gone = {}
        /\ ask = << {}, {} >> /\ shown = [ key \in Keys |-> 0 ]
Go(u, where) == pc' = [ pc EXCEPT ![u] = where ]
Count(u, ks) == count' = [ key \in Keys |-> count[key] + (IF key \in ks THEN Adds(Us[u], key) ELSE 0) ]
Same == UNCHANGED << ask, shown >>
Send(u) == pc[u] = "new" /\ Go(u, IF Us[u].ok THEN "putting" ELSE "timing") /\ UNCHANGED << count, buffered, done, gone >> /\ Same
Put(u) == pc[u] = "putting" /\ Go(u, "marking") /\ Count(u, { "spans.merged", "blacklist.span.received" }) /\ buffered' = buffered \cup { u } /\ UNCHANGED << done, gone >> /\ Same
Mark(u) == pc[u] = "marking" /\ Go(u, "timing") /\ Count(u, { Parsed }) /\ UNCHANGED << buffered, done, gone >> /\ Same
Time(u) == pc[u] = "timing" /\ Go(u, "answering") /\ Count(u, RecvKeys) /\ UNCHANGED << buffered, done, gone >> /\ Same
Answer(u) == pc[u] = "answering" /\ Go(u, "done") /\ done' = done \cup { u } /\ UNCHANGED << count, buffered, gone >> /\ Same
Leave(u) == /\ u \in buffered /\ buffered' = buffered \ { u } /\ gone' = gone \cup { u }
            /\ Count(u, Late \ { "spans.merged", "blacklist.span.received" }) /\ UNCHANGED << pc, done >> /\ Same
\* those that have left for sure
Settled == { u \in done : Us[u].ok => u \in gone }
Ask == ask = << {}, {} >> /\ ask' = << done, Settled >> /\ UNCHANGED << pc, count, buffered, done, gone, shown >>
Sent == { u \in U : pc[u] # "new" }
\* one count after the other is read: here, any one of them at a time
Show(key) == shown' = [ shown EXCEPT ![key] = count[key] ] /\ Assert(count[key] \in Lo(Us, ask[1], ask[2], key) .. Hi(Us, Sent, key), << key, count >>)
             /\ UNCHANGED << pc, count, buffered, done, gone, ask >>
Next == \/ Ask \/ \E key \in { "traces.finished", Parsed, "spans.receive[type:json-v2]", "spans.merged" } : Show(key)
        \/ \E u \in U : Send(u) \/ Put(u) \/ Mark(u) \/ Time(u) \/ Answer(u) \/ Leave(u)
Spec == Init /\ [][Next]_vars
FairSpec == Init /\ [][\E u \in U : Send(u) \/ Put(u) \/ Mark(u) \/ Time(u) \/ Answer(u) \/ Leave(u)]_vars
            /\ \A u \in U : WF_vars(Send(u) \/ Put(u) \/ Mark(u) \/ Time(u) \/ Answer(u)) /\ WF_vars(Leave(u))
\* at any time, a reader would see counts in between
Bounds == \A key \in Keys : count[key] \in Lo(Us, done, Settled, key) .. Hi(Us, Sent, key)
AskedBounds == \A key \in Keys : count[key] >= Lo(Us, ask[1], ask[2], key)
Exact == Settled = U => \A key \in Keys : count[key] = Total(Us, U, key)
\* every accepted trace that is not blocked left in exactly one way, and each has its size counted
OneEnd == Sum(count, Ends) = count["traces.finishedsize"]
================================================================================
