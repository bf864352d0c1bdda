-------------------------------- MODULE JsonText --------------------------------
(***************************************************************************)
(* JSON texts and their values (codec/hyperjson).  A text is a sequence of *)
(* bytes, a value is one of                                                *)
(*   [t |-> "s", s |-> bytes]        a string                              *)
(*   [t |-> "n", s |-> bytes]        a number, as it is written            *)
(*   [t |-> "b", s |-> bytes]        true or false                         *)
(*   [t |-> "z", s |-> bytes]        null                                  *)
(*   [t |-> "a", a |-> values]       an array                              *)
(*   [t |-> "o", m |-> << <<name, value>>, ... >>]   an object             *)
(*                                                                         *)
(* There are two readings: the strict one is the grammar of RFC 8259; the  *)
(* loose one is what the proxy may take for a document: commas and colons  *)
(* are optional, numbers and escapes may be misspelled.  Every strict text *)
(* is a loose one, and its value is the strict one.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* bytes of an ASCII string
Letters == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Codes == << 32, 33 >> \o [ i \in 1..56 |-> 34 + i ] \o << 91, 93 >> \o [ i \in 1..33 |-> 93 + i ]
CodeOf == [ ch \in { SubSeq(Letters, i, i) : i \in 1..Len(Letters) } |->
              Codes[CHOOSE i \in 1..Len(Letters) : SubSeq(Letters, i, i) = ch] ]
Ascii(str) == [ i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)] ]

QUOTE == 34
BACK == 92
OPENA == 91
CLOSEA == 93
OPENO == 123
CLOSEO == 125
COMMA == 44
COLON == 58

StrictSpace == { 9, 10, 13, 32 }
LooseSpace == StrictSpace \cup { 11, 12, COMMA, COLON, 133, 160 }
Digits == 48..57
NumberChars == Digits \cup { 45, 43, 46, 69, 101 }

True == Ascii("true")
False == Ascii("false")
Null == Ascii("null")

Fail == [ p |-> 0, v |-> [ t |-> "z", s |-> <<>> ] ]

\* At(w, p): the byte at p, or -1 after the end
At(w, p) == IF p > Len(w) THEN -1 ELSE w[p]

RECURSIVE SkipSpace(_, _, _)
SkipSpace(w, p, space) == IF p <= Len(w) /\ w[p] \in space THEN SkipSpace(w, p + 1, space) ELSE p

Has(w, p, lit) == p + Len(lit) - 1 <= Len(w) /\ SubSeq(w, p, p + Len(lit) - 1) = lit

-----------------------------------------------------------------------------
(* Strings: the text between the quotes, and the string that it stands for.  *)

\* (runs of 64 bytes are skipped at once, as TLC is slow in deep recursions)
Run(w, p, set) == p + 63 <= Len(w) /\ \A j \in p..p + 63 : w[j] \notin set
NotPlain == (0..31) \cup { QUOTE, BACK } \cup (128..255)

RECURSIVE Plain(_, _)
Plain(w, p) ==                     \* the next quote or backslash, or 0
  IF p > Len(w) THEN 0 ELSE IF w[p] = QUOTE \/ w[p] = BACK THEN p
  ELSE IF Run(w, p, { QUOTE, BACK }) THEN Plain(w, p + 64) ELSE Plain(w, p + 1)

RECURSIVE CloseQuote(_, _)
CloseQuote(w, p) ==                \* the quote that ends the string, or 0
  LET q == Plain(w, p)
  IN IF q = 0 \/ w[q] = QUOTE THEN q ELSE IF q + 1 > Len(w) THEN 0 ELSE CloseQuote(w, q + 2)

Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Unit(s, i) ==                      \* the UTF-16 unit of \uXXXX at i, or -1
  IF /\ i + 5 <= Len(s) /\ s[i] = BACK /\ s[i + 1] = 117
     /\ \A j \in 2..5 : Hex(s[i + j]) >= 0
  THEN (Hex(s[i + 2]) * 4096) + (Hex(s[i + 3]) * 256) + (Hex(s[i + 4]) * 16) + Hex(s[i + 5])
  ELSE -1

High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
Utf8(c) ==                         \* the bytes of a code point
  IF c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
  ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
  ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>

Simple == [ c \in { 34, 92, 47, 98, 102, 110, 114, 116 } |->
              CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c ]

RECURSIVE NextBack(_, _)
NextBack(s, i) == IF i > Len(s) \/ s[i] = BACK THEN i ELSE IF Run(s, i, { BACK }) THEN NextBack(s, i + 64) ELSE NextBack(s, i + 1)

\* the string that the text s between the quotes stands for
RECURSIVE Unescape(_, _, _)
Unescape(s, i, acc) ==
  LET b == NextBack(s, i)
      pre == acc \o SubSeq(s, i, b - 1)
      u == Unit(s, b)
      v == Unit(s, b + 6)
  IN IF b > Len(s) THEN pre
     ELSE IF High(u) /\ Low(v)
          THEN Unescape(s, b + 12, pre \o Utf8(65536 + ((u - 55296) * 1024) + (v - 56320)))
     ELSE IF u >= 0 THEN Unescape(s, b + 6, pre \o Utf8(IF High(u) \/ Low(u) THEN 65533 ELSE u))
     ELSE IF b + 1 <= Len(s) /\ s[b + 1] \in DOMAIN Simple THEN Unescape(s, b + 2, Append(pre, Simple[s[b + 1]]))
     ELSE Unescape(s, b + 1, pre)          \* a misspelled escape: some string
StringOf(s) == Unescape(s, 1, <<>>)

\* is the text well-formed: escapes spelled correctly and paired, no control characters, valid UTF-8
RECURSIVE WellFormed(_, _)
WellFormed(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE IF Run(s, i, NotPlain) THEN WellFormed(s, i + 64)
  ELSE LET c == s[i]
           cont(k, lo, hi) == i + k <= Len(s) /\ s[i + k] \in lo..hi
           u == Unit(s, i)
           v == Unit(s, i + 6)
       IN IF c = BACK
          THEN IF u >= 0
               THEN IF High(u) THEN Low(v) /\ WellFormed(s, i + 12) ELSE ~Low(u) /\ WellFormed(s, i + 6)
               ELSE i + 1 <= Len(s) /\ s[i + 1] \in DOMAIN Simple /\ WellFormed(s, i + 2)
          ELSE IF c \in 32..127 THEN WellFormed(s, i + 1)
          ELSE IF c \in 194..223 THEN cont(1, 128, 191) /\ WellFormed(s, i + 2)
          ELSE IF c \in 224..239
               THEN /\ cont(1, IF c = 224 THEN 160 ELSE 128, IF c = 237 THEN 159 ELSE 191)
                    /\ cont(2, 128, 191) /\ WellFormed(s, i + 3)
          ELSE IF c \in 240..244
               THEN /\ cont(1, IF c = 240 THEN 144 ELSE 128, IF c = 244 THEN 143 ELSE 191)
                    /\ cont(2, 128, 191) /\ cont(3, 128, 191) /\ WellFormed(s, i + 4)
          ELSE FALSE

-----------------------------------------------------------------------------
(* Numbers.                                                                  *)

RECURSIVE AfterDigits(_, _)
AfterDigits(w, p) == IF At(w, p) \in Digits THEN AfterDigits(w, p + 1) ELSE p
RECURSIVE AfterNumberChars(_, _)
AfterNumberChars(w, p) == IF At(w, p) \in NumberChars THEN AfterNumberChars(w, p + 1) ELSE p

StrictNumberEnd(w, p) ==           \* the position after the number, or 0
  LET i == IF At(w, p) = 45 THEN p + 1 ELSE p
      j == IF At(w, i) = 48 THEN i + 1 ELSE AfterDigits(w, i)
      k == IF At(w, j) = 46 THEN AfterDigits(w, j + 1) ELSE j
      l == IF At(w, k) \in { 69, 101 } THEN (IF At(w, k + 1) \in { 43, 45 } THEN k + 2 ELSE k + 1) ELSE k
      m == IF l > k THEN AfterDigits(w, l) ELSE k
  IN IF j = i \/ (At(w, j) = 46 /\ k = j + 1) \/ (l > k /\ m = l) THEN 0 ELSE m

-----------------------------------------------------------------------------
(* Values.  Read(w, p, s) reads the value at p (no space before it); the     *)
(* result has the position after it, 0 if there is none.                     *)

RECURSIVE Read(_, _, _), ReadElems(_, _, _, _), ReadMembers(_, _, _, _)

ReadString(w, p, strict) ==
  LET q == CloseQuote(w, p + 1)
      s == SubSeq(w, p + 1, q - 1)
  IN IF q = 0 \/ (strict /\ ~WellFormed(s, 1)) THEN Fail
     ELSE [ p |-> q + 1, v |-> [ t |-> "s", s |-> StringOf(s) ] ]

Read(w, p, strict) ==
  LET c == At(w, p) IN
  IF c = QUOTE THEN ReadString(w, p, strict)
  ELSE IF c = 45 \/ c \in Digits
       THEN LET e == IF strict THEN StrictNumberEnd(w, p) ELSE AfterNumberChars(w, p)
            IN IF e = 0 THEN Fail ELSE [ p |-> e, v |-> [ t |-> "n", s |-> SubSeq(w, p, e - 1) ] ]
  ELSE IF Has(w, p, True) THEN [ p |-> p + 4, v |-> [ t |-> "b", s |-> True ] ]
  ELSE IF Has(w, p, False) THEN [ p |-> p + 5, v |-> [ t |-> "b", s |-> False ] ]
  ELSE IF Has(w, p, Null) THEN [ p |-> p + 4, v |-> [ t |-> "z", s |-> Null ] ]
  ELSE IF c = OPENA THEN ReadElems(w, p + 1, strict, <<>>)
  ELSE IF c = OPENO THEN ReadMembers(w, p + 1, strict, <<>>)
  ELSE Fail

Space(strict) == IF strict THEN StrictSpace ELSE LooseSpace

\* strict: the comma before the next element (which must follow), if this is not the first one
AfterComma(w, p, strict, first) ==
  LET q == SkipSpace(w, p, Space(strict))
  IN IF ~strict \/ first THEN q
     ELSE IF At(w, q) = COMMA THEN SkipSpace(w, q + 1, StrictSpace) ELSE 0

ReadElems(w, p, strict, acc) ==
  LET q == SkipSpace(w, p, Space(strict))
      at == AfterComma(w, p, strict, acc = <<>>)
      e == IF at = 0 THEN Fail ELSE Read(w, at, strict)
  IN IF At(w, q) = CLOSEA THEN [ p |-> q + 1, v |-> [ t |-> "a", a |-> acc ] ]
     ELSE IF e.p = 0 THEN Fail
     ELSE ReadElems(w, e.p, strict, Append(acc, e.v))

ReadMembers(w, p, strict, acc) ==
  LET q == SkipSpace(w, p, Space(strict))
      at == AfterComma(w, p, strict, acc = <<>>)
      k == IF at = 0 \/ At(w, at) # QUOTE THEN Fail ELSE ReadString(w, at, strict)
      r == IF k.p = 0 THEN 0 ELSE SkipSpace(w, k.p, Space(strict))
      s == IF ~strict \/ r = 0 THEN r ELSE IF At(w, r) = COLON THEN SkipSpace(w, r + 1, StrictSpace) ELSE 0
      v == IF s = 0 THEN Fail ELSE Read(w, s, strict)
  IN IF At(w, q) = CLOSEO THEN [ p |-> q + 1, v |-> [ t |-> "o", m |-> acc ] ]
     ELSE IF v.p = 0 THEN Fail
     ELSE ReadMembers(w, v.p, strict, Append(acc, << k.v.s, v.v >>))

Text(w, strict) ==                 \* the document at the beginning of w; whatever follows it is ignored
  LET p == SkipSpace(w, 1, Space(strict)) IN IF p > Len(w) THEN Fail ELSE Read(w, p, strict)
Strict(w) == Text(w, TRUE)
Loose(w) == Text(w, FALSE)

-----------------------------------------------------------------------------
(* A way to write values, to check the reading with.                         *)

RECURSIVE Write(_), Escaped(_, _)
Escaped(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE (IF s[i] = QUOTE \/ s[i] = BACK THEN << BACK, s[i] >>
        ELSE IF s[i] = 10 THEN << BACK, 110 >>
        ELSE IF s[i] < 32 THEN << BACK, 117, 48, 48, 48 + (s[i] \div 16), IF s[i] % 16 < 10 THEN 48 + (s[i] % 16) ELSE 87 + (s[i] % 16) >>
        ELSE << s[i] >>) \o Escaped(s, i + 1)
Quoted(s) == << QUOTE >> \o Escaped(s, 1) \o << QUOTE >>
Commas(parts) == IF parts = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, x : acc \o << COMMA >> \o x, parts[1], Tail(parts))
Write(v) ==
  CASE v.t = "s" -> Quoted(v.s)
    [] v.t \in { "n", "b", "z" } -> v.s
    [] v.t = "a" -> << OPENA >> \o Commas([ i \in DOMAIN v.a |-> Write(v.a[i]) ]) \o << CLOSEA >>
    [] v.t = "o" -> << OPENO >> \o Commas([ i \in DOMAIN v.m |-> Quoted(v.m[i][1]) \o << COLON >> \o Write(v.m[i][2]) ]) \o << CLOSEO >>
=================================================================================
