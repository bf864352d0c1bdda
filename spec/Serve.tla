--------------------------------- MODULE Serve ---------------------------------
(***************************************************************************)
(* What becomes of a request to the program (main.go, handlers.go): its    *)
(* body is unpacked, the handler that the user's routing has made of the   *)
(* router gets it, and the router gives it to an upload endpoint, to a     *)
(* route of the user or to nobody.                                         *)
(*                                                                         *)
(* A request: method, path, query, mark (a header that nobody knows), deny *)
(* (a header that the user's handler knows), enc (Content-Encoding), head  *)
(* (the body begins as gzip does), size (is a length announced), w (the    *)
(* bytes of the unpacked body), broken (an error comes after them), json   *)
(* (the content type is application/json).                                 *)
(* A routing: front (there is a handler before the router, which denies),  *)
(* prefix (which is stripped), routes (of the user).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Format == [ p \in { "/api/v1/spans", "/api/v2/spans", "/api/jaeger/spans" } |->
            CASE p = "/api/v1/spans" -> "v1" [] p = "/api/v2/spans" -> "v2" [] OTHER -> "jaeger" ]

\* the body is decompressed on the way; what announced the compressed form is gone
Packed(q) == q.enc = "gzip"
Unpackable(q) == Packed(q) => q.head
Unpack(q) == IF Packed(q) THEN [ q EXCEPT !.enc = "", !.size = FALSE ] ELSE q

\* the user's handler answers by itself, or gives it to the router
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Denies(r, q) == r.front /\ q.deny
Outside(r, q) == ~HasPrefix(q.path, r.prefix)
Strip(r, q) == [ q EXCEPT !.path = SubSeq(q.path, Len(r.prefix) + 1, Len(q.path)) ]

Route(r, q) == IF q.method = "POST" /\ q.path \in DOMAIN Format THEN "upload"
               ELSE IF << q.method, q.path >> \in r.routes THEN "user" ELSE "nobody"

(* All of it: who answers the request, and the request as it is then *)
Fate(r, q) ==
  LET u == Unpack(q)  s == Strip(r, u)
  IN IF ~Unpackable(q) THEN [ by |-> "unpacker", q |-> q ]
     ELSE IF Denies(r, u) THEN [ by |-> "front", q |-> u ]
     ELSE IF Outside(r, u) THEN [ by |-> "nobody", q |-> u ]
     ELSE [ by |-> Route(r, s), q |-> s ]
=================================================================================
