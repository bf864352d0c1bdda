-------------------------------- MODULE MCReader --------------------------------
(***************************************************************************)
(* The parser's window over its input (codec/hyperjson/parser.go): a       *)
(* buffer with the bytes between tail and head still to be used, refilled  *)
(* by reads that may return any number of bytes, alone or together with    *)
(* the end or an error, and replaced by a larger one when a token fills    *)
(* it.  For every text over a small alphabet, every size of the buffer and *)
(* every splitting into reads, skipping a value takes exactly the tokens   *)
(* that the text has, and always ends.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Sizes, MaxDepth, MaxEmpty

\* q: quote, b: backslash, d: digit, o / c: open and close bracket, s: space, x: anything else
Alphabet == { "q", "b", "d", "o", "c", "s" }

VARIABLES
  text,      \* the whole input
  ends,      \* "eof" or "error": what comes after it
  unread,    \* how many bytes of it were read from the source
  buf, tail, head, eof,
  empty,     \* reads without bytes in a row
  pc, n,     \* what is being read, and how many bytes of it were looked at
  esc,       \* the next character of the string is escaped
  depth, out, go
vars == << text, ends, unread, buf, tail, head, eof, empty, pc, n, esc, depth, out, go >>

Texts == UNION { [ 1..i -> Alphabet ] : i \in 0..MaxLen }
\* bytes that were never written, or are left over
Junk == "?"

Init ==
  /\ text \in Texts /\ ends \in { "eof", "error" } /\ unread = 0
  /\ \E s \in Sizes : buf = [ i \in 1..s |-> Junk ]
  /\ tail = 0 /\ head = 0 /\ eof = FALSE /\ empty = 0
  /\ pc = "value" /\ n = 0 /\ esc = FALSE /\ depth = 0 /\ out = <<>> /\ go = FALSE

Avail == head - tail
Cur == buf[tail + 1]

Stop(how) == pc' = how /\ UNCHANGED << text, ends, unread, buf, tail, head, eof, empty, n, esc, depth, out >>

\* bufferMore: make room, then read; the bytes that are still needed are at the beginning
Moved == [ i \in 1..Len(buf) |-> IF i <= Avail THEN buf[tail + i] ELSE buf[i] ]
Grown == IF Avail = Len(buf) THEN [ i \in 1..(2 * Len(buf)) + 1 |-> IF i <= Len(buf) THEN Moved[i] ELSE Junk ] ELSE Moved
More ==
  IF eof THEN Stop("error")
  ELSE \E k \in 0..(Len(text) - unread), last \in BOOLEAN :
         LET a == Avail
             room == Len(Grown) - a
             end == last /\ k = Len(text) - unread       \* the end comes together with the last bytes
         IN /\ k <= room
            /\ k = 0 => (Len(text) = unread \/ empty < MaxEmpty)
            /\ Len(text) = unread => last                \* nothing is left but the end
            /\ IF end /\ ends = "error" THEN Stop("error")
               ELSE IF end /\ k = 0 THEN Stop("error")
               ELSE /\ buf' = [ i \in 1..Len(Grown) |-> IF i \in a + 1..a + k THEN text[unread + i - a] ELSE Grown[i] ]
                    /\ tail' = 0 /\ head' = a + k /\ unread' = unread + k /\ eof' = end
                    /\ empty' = IF k = 0 THEN empty + 1 ELSE 0
                    /\ UNCHANGED << text, ends, pc, n, esc, depth, out >>

Token(kind, len, to, d) ==         \* a token of len bytes from tail, without its quotes
  /\ out' = Append(out, << kind, SubSeq(buf, tail + 1, tail + len) >>)
  /\ tail' = tail + (IF kind = "str" THEN len + 1 ELSE len)
  /\ depth' = d /\ n' = 0 /\ esc' = FALSE /\ empty' = 0
  /\ pc' = to
  /\ UNCHANGED << text, ends, unread, buf, head, eof >>

After(d) == IF d = 0 THEN "done" ELSE "value"

\* skip: the type of the next token decides
Value ==
  /\ pc = "value"
  /\ IF Avail = 0 THEN More
     ELSE CASE Cur = "s" -> tail' = tail + 1 /\ UNCHANGED << text, ends, unread, buf, head, eof, empty, pc, n, esc, depth, out >>
            [] Cur = "q" -> tail' = tail + 1 /\ pc' = "str" /\ UNCHANGED << text, ends, unread, buf, head, eof, empty, n, esc, depth, out >>
            [] Cur = "d" -> pc' = "num" /\ n' = 1 /\ UNCHANGED << text, ends, unread, buf, tail, head, eof, empty, esc, depth, out >>
            [] Cur = "o" -> IF depth >= MaxDepth THEN Stop("error") ELSE Token("open", 1, "value", depth + 1)
            [] Cur = "c" -> IF depth = 0 THEN Stop("error") ELSE Token("close", 1, After(depth - 1), depth - 1)
            [] OTHER -> Stop("error")
String ==
  /\ pc = "str"
  /\ IF n = Avail THEN More
     ELSE LET ch == buf[tail + n + 1] IN
          IF ~esc /\ ch = "q" THEN Token("str", n, After(depth), depth)
          ELSE n' = n + 1 /\ esc' = (~esc /\ ch = "b") /\ UNCHANGED << text, ends, unread, buf, tail, head, eof, empty, pc, depth, out >>
Number ==
  /\ pc = "num"
  /\ IF n = Avail THEN More
     ELSE IF buf[tail + n + 1] # "d" THEN Token("num", n, After(depth), depth)
     ELSE n' = n + 1 /\ UNCHANGED << text, ends, unread, buf, tail, head, eof, empty, pc, esc, depth, out >>

Next == (~go /\ go' = TRUE /\ UNCHANGED << text, ends, unread, buf, tail, head, eof, empty, pc, n, esc, depth, out >>)
        \/ (go /\ UNCHANGED go /\ (Value \/ String \/ Number))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* the tokens of the first value of the text, ended by "done" or "error"
RECURSIVE StrEnd(_, _), NumEnd(_, _), Toks(_, _, _)
StrEnd(t, p) == IF p > Len(t) THEN 0 ELSE IF t[p] = "q" THEN p ELSE IF t[p] = "b" THEN StrEnd(t, p + 2) ELSE StrEnd(t, p + 1)
NumEnd(t, p) == IF p <= Len(t) /\ t[p] = "d" THEN NumEnd(t, p + 1) ELSE p
Then(tok, t, p, d) == IF d = 0 THEN [ end |-> "done", out |-> << tok >> ]
                      ELSE LET r == Toks(t, p, d) IN [ end |-> r.end, out |-> << tok >> \o r.out ]
Toks(t, p, d) ==
  IF p > Len(t) THEN [ end |-> "error", out |-> <<>> ]
  ELSE CASE t[p] = "s" -> Toks(t, p + 1, d)
         [] t[p] = "q" -> LET e == StrEnd(t, p + 1)
                          IN IF e = 0 THEN [ end |-> "error", out |-> <<>> ] ELSE Then(<< "str", SubSeq(t, p + 1, e - 1) >>, t, e + 1, d)
         [] t[p] = "d" -> LET e == NumEnd(t, p)
                          IN IF e > Len(t) THEN [ end |-> "error", out |-> <<>> ] ELSE Then(<< "num", SubSeq(t, p, e - 1) >>, t, e, d)
         [] t[p] = "o" -> IF d >= MaxDepth THEN [ end |-> "error", out |-> <<>> ]
                          ELSE LET r == Toks(t, p + 1, d + 1) IN [ end |-> r.end, out |-> << << "open", << "o" >> >> >> \o r.out ]
         [] t[p] = "c" -> IF d = 0 THEN [ end |-> "error", out |-> <<>> ] ELSE Then(<< "close", << "c" >> >>, t, p + 1, d - 1)
         [] OTHER -> [ end |-> "error", out |-> <<>> ]

Window == 0 <= tail /\ tail <= head /\ head <= Len(buf)
\* what is in the window is the text that was read and not used yet
InPlace == \A i \in 1..Avail : buf[tail + i] = text[unread - Avail + i]
Prefix == LET r == Toks(text, 1, 0).out IN Len(out) <= Len(r) /\ out = SubSeq(r, 1, Len(out))
\* an error that comes together with bytes discards them; otherwise chunking does not matter
Right == LET r == Toks(text, 1, 0)
         IN /\ pc = "done" => r.end = "done" /\ out = r.out
            /\ pc = "error" /\ ends = "eof" => r.end = "error" /\ out = r.out
Bounded == Len(buf) <= (2 * (IF 2 * MaxLen > 1 THEN MaxLen ELSE 1)) + 3
Ends == <>(pc \in { "done", "error" })
=================================================================================
