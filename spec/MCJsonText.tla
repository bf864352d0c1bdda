------------------------------- MODULE MCJsonText -------------------------------
(* The two readings of JsonText on all small values: reading is the inverse of      *)
(* writing, no proper prefix of an array or object is a document in either reading, *)
(* what follows a document and space between its tokens do not matter, and every    *)
(* strict text is a loose one of the same value.  Besides, all short texts.         *)
EXTENDS JsonText, TLC
CONSTANT Deep

Str(s) == [ t |-> "s", s |-> s ]
Num(s) == [ t |-> "n", s |-> s ]
Arr(a) == [ t |-> "a", a |-> a ]
Obj(m) == [ t |-> "o", m |-> m ]
Upto(S, n) == UNION { [ 1..i -> S ] : i \in 0..n }

Names == { Str(s) : s \in Upto({ 34, 92, 10 }, IF Deep THEN 2 ELSE 1) \cup { Ascii("[,:]"), Utf8(233), Utf8(65533), Utf8(128512) } }
V0 == Names \cup { Num(Ascii(n)) : n \in { "0", "-1", "12", "1.5e-3" } } \cup { [ t |-> "b", s |-> True ], [ t |-> "z", s |-> Null ] }
V0s == { Str(<<>>), Str(<< 92 >>), Num(Ascii("12")), [ t |-> "b", s |-> False ], [ t |-> "z", s |-> Null ] }
Keys == { <<>>, << 34 >>, Ascii("id") }
V1 == { Arr(a) : a \in Upto(V0, 2) } \cup { Obj(m) : m \in Upto(Keys \X V0s, IF Deep THEN 2 ELSE 1) }
V1s == { Arr(a) : a \in Upto({ Str(<< 34 >>), Num(Ascii("1")) }, 2) } \cup { Obj(m) : m \in Upto({ << <<>> >> , << Ascii("a") >> } , 0) }
         \cup { Obj(<< << Ascii("a"), v >> >>) : v \in V0s }
V2 == { Arr(a) : a \in Upto(V1s \cup { Str(<<>>) }, 2) } \cup { Obj(<< << Ascii("k"), v >>, << Ascii("l"), u >> >>) : v \in V1s, u \in V1s }

Alphabet == { QUOTE, BACK, OPENA, CLOSEA, OPENO, CLOSEO, COMMA, COLON, 48, 45, 32, 117 }

VARIABLES kind, v, go
vars == << kind, v, go >>
Init ==
  /\ go = FALSE
  /\ \/ kind = "value" /\ v \in V0 \cup V1 \cup V2
     \/ kind = "text" /\ v \in Upto(Alphabet, IF Deep THEN 5 ELSE 4)
Next == ~go /\ go' = TRUE /\ UNCHANGED << kind, v >>
Spec == Init /\ [][Next]_vars

W == Write(v)
\* with a space before and after every token, that is outside of strings
RECURSIVE Spaced(_, _)
Spaced(w, p) ==
  IF p > Len(w) THEN <<>>
  ELSE IF w[p] = QUOTE THEN LET q == CloseQuote(w, p + 1) IN << 32 >> \o SubSeq(w, p, q) \o << 10 >> \o Spaced(w, q + 1)
  ELSE IF w[p] \in { OPENA, CLOSEA, OPENO, CLOSEO, COMMA, COLON } THEN << 32, w[p], 9 >> \o Spaced(w, p + 1)
  ELSE << w[p] >> \o Spaced(w, p + 1)

RoundTrip == go /\ kind = "value" => Strict(W) = [ p |-> Len(W) + 1, v |-> v ] /\ Loose(W) = Strict(W)
Layout == go /\ kind = "value" => Strict(Spaced(W, 1)).v = v /\ Loose(Spaced(W, 1)).v = v /\ Strict(Spaced(W, 1)).p # 0
Trailing == go /\ kind = "value" /\ v.t \in { "a", "o" } => \A x \in Alphabet : Strict(W \o << x, x >>) = Strict(W)
Truncated == go /\ kind = "value" /\ v.t \in { "a", "o", "s" } => \A n \in 0..(Len(W) - 1) : Loose(SubSeq(W, 1, n)).p = 0
\* a text is read the same way by both, if the strict one reads it at all
Agree == go /\ kind = "text" => LET s == Strict(v) l == Loose(v) IN s.p # 0 => l.p # 0 /\ (v[1] \notin { 45, 48 } /\ v[1] # 32 => l = s)
Prefix == go /\ kind = "text" => LET l == Loose(v) IN l.p # 0 => Loose(SubSeq(v, 1, l.p - 1)) = l
=================================================================================
