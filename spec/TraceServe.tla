-------------------------------- MODULE TraceServe --------------------------------
(* Requests to the running program, their answers, and what the view has of their traces. *)
EXTENDS Serve, Translate, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

Span(x) == [ id |-> x.id, trace |-> x.trace, parent |-> x.parent, name |-> x.name, svc |-> x.svc, ts |-> x.ts, dur |-> x.dur,
             cs |-> x.cs, cr |-> x.cr, ss |-> x.ss, sr |-> x.sr, tags |-> { x.tags[i] : i \in DOMAIN x.tags } ]
Routing(x) == [ front |-> x.front, prefix |-> x.prefix, routes |-> { << x.routes[i][1], x.routes[i][2] >> : i \in DOMAIN x.routes } ]

(* what a handler of the user saw of the request; it wrote down whether a length was announced only for those that had been packed *)
Saw(q, packed, e) ==
  /\ e.method = q.method /\ e.path = q.path /\ e.query = q.query /\ e.mark = q.mark /\ e.enc = q.enc
  /\ e.w = q.w /\ e.broken = q.broken
  /\ packed => ~e.size

(* c.q: the request; c.status, c.front (the user's handler was asked), c.saw (what a handler of the user saw), c.view: spans *)
CaseOk(routing, c) ==
  LET f == Fate(routing, c.q)
      view == { Span(c.view[i]) : i \in DOMAIN c.view }
      verdict == Verdict(Format[f.q.path], c.q.w, c.q.broken)
      asked == routing.front /\ f.by # "unpacker"
  IN /\ c.front = asked
     /\ f.by # "upload" => c.view = <<>>
     /\ CASE f.by = "unpacker" -> c.status = 400 /\ c.saw = <<>>
          [] f.by = "front" -> c.status = 418 /\ Len(c.saw) = 1 /\ Saw(f.q, Packed(c.q), c.saw[1])
          [] f.by = "user" -> c.status = 200 /\ Len(c.saw) = 1 /\ Saw(f.q, Packed(c.q), c.saw[1])
          [] f.by = "nobody" -> c.status >= 300 /\ c.saw = <<>>
          [] OTHER ->
               /\ c.saw = <<>> /\ c.status \in { 202, 400 }
               /\ IF Format[f.q.path] = "v1" /\ ~c.q.json THEN c.status = 400 /\ c.view = <<>>
                  ELSE /\ verdict.is = "accept" => c.status = 202
                       /\ verdict.is = "reject" => c.status = 400
                       /\ IF c.status = 202 THEN verdict.known => Len(c.view) = Len(verdict.spans) /\ view = { verdict.spans[i] : i \in DOMAIN verdict.spans }
                          ELSE c.view = <<>>
VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET r == Routing(Logs[k].routing)
               bad == { i \in DOMAIN Logs[k].cases : ~CaseOk(r, Logs[k].cases[i]) }
           IN (bad = {} /\ Logs[k].extra = 0) \/ PrintT(<<"REJECT", Logs[k].id, bad>>)
Spec == Init /\ [][Next]_vars
===================================================================================
