--------------------------------- MODULE IdText ---------------------------------
(***************************************************************************)
(* Ids and their text (proxy/id.go).  A text is a sequence of bytes; an id *)
(* is the sequence of its 16 hex digits (0..15), most significant first.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Digit(c) ==                          \* the value of a character, or -1
  IF c \in 48..57 THEN c - 48
  ELSE IF c \in 97..102 THEN c - 87
  ELSE IF c \in 65..70 THEN c - 55
  ELSE -1

Accepted(text) == Len(text) <= 16 /\ \A i \in DOMAIN text : Digit(text[i]) >= 0

\* The value of an accepted text: missing digits are zero.
Value(text) ==
  [ i \in 1..16 |-> LET n == i - (16 - Len(text)) IN IF n < 1 THEN 0 ELSE Digit(text[n]) ]

Char(d) == IF d < 10 THEN 48 + d ELSE 87 + d

Format(id) == [ i \in 1..16 |-> Char(id[i]) ]
Quote == << 34 >>
Json(id) == Quote \o Format(id) \o Quote

\* A JSON text as an id: a string of an accepted text.
JsonAccepted(text) == Len(text) >= 2 /\ text[1] = 34 /\ text[Len(text)] = 34 /\ Accepted(SubSeq(text, 2, Len(text) - 1))
JsonValue(text) == Value(SubSeq(text, 2, Len(text) - 1))
=================================================================================
