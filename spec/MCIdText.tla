-------------------------------- MODULE MCIdText --------------------------------
(* Formatting and parsing are inverse to each other, on ids whose digits are all   *)
(* but a few equal.                                                                *)
EXTENDS IdText
VARIABLE id
Init == id \in { [ i \in 1..16 |-> IF i = p THEN x ELSE IF i = q THEN y ELSE b ] :
                   p \in 1..16, q \in 1..16, x \in 0..15, y \in 0..15, b \in {0, 15} }
Next == UNCHANGED id
Spec == Init /\ [][Next]_id
RECURSIVE Strip(_)
Strip(t) == IF t # <<>> /\ t[1] = 48 THEN Strip(Tail(t)) ELSE t
Inverse == Accepted(Format(id)) /\ Value(Format(id)) = id
ShortForm == Value(Strip(Format(id))) = id
Upper == Value([ i \in 1..16 |-> LET c == Format(id)[i] IN IF c > 96 THEN c - 32 ELSE c ]) = id
JsonInverse == JsonAccepted(Json(id)) /\ JsonValue(Json(id)) = id
Injective == \A i \in 1..16 : Digit(Format(id)[i]) = id[i]
=================================================================================
