-------------------------------- MODULE MCServe --------------------------------
(***************************************************************************)
(* Requests at the same time, step by step: nothing but an accepted upload *)
(* puts in spans, the user's handler is asked before anybody else, all are *)
(* answered, and the result is the one that Serve!Fate says.               *)
(***************************************************************************)
EXTENDS Serve, FiniteSets, TLC
CONSTANTS Requests, Capacity
VARIABLES routing, sent, cur, at, asked, chan, taken
vars == << routing, sent, cur, at, asked, chan, taken >>

Kinds == [ method : { "POST", "GET" }, path : { "/api/v2/spans", "/p/api/v2/spans", "/echo" }, deny : BOOLEAN, enc : { "", "gzip" },
           head : BOOLEAN, good : BOOLEAN ]
Routings == { [ front |-> FALSE, prefix |-> "", routes |-> {} ],
              [ front |-> TRUE, prefix |-> "", routes |-> { << "GET", "/echo" >>, << "POST", "/echo" >> } ],
              [ front |-> TRUE, prefix |-> "/p", routes |-> {} ] }
Full(k) == [ method |-> k.method, path |-> k.path, deny |-> k.deny, enc |-> k.enc, head |-> k.head, size |-> TRUE, good |-> k.good ]

Init ==
  /\ routing \in Routings
  /\ \E f \in [ Requests -> { k \in Kinds : k.enc = "gzip" \/ k.head } ] : sent = [ r \in Requests |-> Full(f[r]) ]
  /\ cur = sent /\ at = [ r \in Requests |-> "unpacker" ] /\ asked = {} /\ chan = <<>> /\ taken = <<>>

Go(r, where) == at' = [ at EXCEPT ![r] = where ]
Answer(r, who) == Go(r, "by " \o who)
Unpacker(r) ==
  /\ at[r] = "unpacker" /\ UNCHANGED << routing, sent, asked, chan, taken >>
  /\ IF Unpackable(cur[r]) THEN cur' = [ cur EXCEPT ![r] = Unpack(@) ] /\ Go(r, "front")
     ELSE cur' = cur /\ Answer(r, "unpacker")
Front(r) ==
  /\ at[r] = "front" /\ asked' = asked \cup { r } /\ UNCHANGED << routing, sent, chan, taken >>
  /\ IF Denies(routing, cur[r]) THEN cur' = cur /\ Answer(r, "front")
     ELSE IF Outside(routing, cur[r]) THEN cur' = cur /\ Answer(r, "nobody")
     ELSE cur' = [ cur EXCEPT ![r] = Strip(routing, @) ] /\ Go(r, "router")
Router(r) ==
  /\ at[r] = "router" /\ UNCHANGED << routing, sent, cur, asked, chan, taken >>
  /\ IF Route(routing, cur[r]) = "upload" /\ cur[r].good THEN Go(r, "sending") ELSE Answer(r, Route(routing, cur[r]))
Send(r) ==
  /\ at[r] = "sending" /\ Len(chan) < Capacity /\ chan' = Append(chan, r) /\ Answer(r, "upload")
  /\ UNCHANGED << routing, sent, cur, asked, taken >>
Take ==
  /\ chan # <<>> /\ taken' = Append(taken, chan[1]) /\ chan' = Tail(chan) /\ UNCHANGED << routing, sent, cur, at, asked >>
Next == Take \/ \E r \in Requests : Unpacker(r) \/ Front(r) \/ Router(r) \/ Send(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ \A r \in Requests : WF_vars(Unpacker(r)) /\ WF_vars(Front(r)) /\ WF_vars(Router(r)) /\ SF_vars(Send(r))

In == { taken[i] : i \in DOMAIN taken } \cup { chan[i] : i \in DOMAIN chan }
AsSaid == \A r \in Requests : at[r] \notin { "unpacker", "front", "router", "sending" } =>
            LET f == Fate(routing, sent[r])
            IN at[r] = "by " \o f.by /\ cur[r] = f.q /\ (r \in In <=> f.by = "upload" /\ sent[r].good)
UserFirst == \A r \in In : r \in asked /\ ~Denies(routing, sent[r])
OnlyUploads == \A r \in In : cur[r].method = "POST" /\ cur[r].path = "/api/v2/spans" /\ cur[r].enc = "" /\ cur[r].good
Once == Len(taken) + Len(chan) = Cardinality(In)
Answered == \A r \in Requests : <>(at[r] \notin { "unpacker", "front", "router", "sending" })
=================================================================================
