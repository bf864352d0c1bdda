------------------------------- MODULE TracePage -------------------------------
(* The running program's metrics page, read before, between and during uploads. *)
EXTENDS Page, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

VARIABLES k, l, sent, done, gone, ask
vars == << k, l, sent, done, gone, ask >>
Us == Logs[k].us
Init == k \in DOMAIN Logs /\ l = 1 /\ sent = {} /\ done = {} /\ gone = {} /\ ask = << {}, {} >>
Go == l' = l + 1
Bad(why) == l' = 0 /\ PrintT(<<"REJECT", Logs[k].id, l, why>>)

\* e.has: the names on the page, e.n: their counts; e.numbers: the other values that the page must have are numbers (all of them)
Wrong(e) == { key \in Keys : LET n == IF key \in DOMAIN e.n THEN e.n[key] ELSE 0
                             IN n \notin Lo(Us, ask[1], ask[2], key) .. Hi(Us, sent, key) }
           \cup { g \in Gauges : ~(g \in DOMAIN e.n /\ e.n[g] >= 0 /\ (ask[2] = sent => e.n[g] = 0)) }
           \cup { g \in { "binary.cache.hit.rate", "binary.cache.size", "binary.cache.count" } : g \notin { e.numbers[i] : i \in DOMAIN e.numbers } }
           \* late counts are there from the beginning, even if nothing has been counted
           \cup { key \in Late : key \notin DOMAIN e.n }
Next ==
  /\ l > 0 /\ l <= Len(Logs[k].ev) /\ k' = k
  /\ LET e == Logs[k].ev[l]
     IN CASE e.e = "send" -> Go /\ sent' = sent \cup { e.u } /\ UNCHANGED << done, gone, ask >>
          [] e.e = "done" -> /\ done' = done \cup { e.u } /\ UNCHANGED << sent, gone, ask >>
                             /\ IF e.status = (IF Us[e.u].ok THEN 202 ELSE 400) THEN Go ELSE Bad(e)
          \* nothing sent until then is in the buffer any more (or the wait for that was given up)
          [] e.e = "rest" -> Go /\ gone' = done /\ UNCHANGED << sent, done, ask >>
          [] e.e = "ask" -> Go /\ ask' = << done, gone >> /\ UNCHANGED << sent, done, gone >>
          [] OTHER -> /\ UNCHANGED << sent, done, gone, ask >>
                      /\ IF e.status = 200 /\ Wrong(e) = {} THEN Go ELSE Bad(<< e.status, IF e.status = 200 THEN Wrong(e) ELSE {} >>)
Spec == Init /\ [][Next]_vars
================================================================================
