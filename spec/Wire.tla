---------------------------------- MODULE Wire ----------------------------------
(***************************************************************************)
(* The encoding of spans in Kafka messages (codec/binary.go).  Messages    *)
(* and strings are sequences of bytes; a 64 bit value is the sequence of   *)
(* its bits, least significant first.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
P == [ n \in 0..30 |-> Pow2(n) ]

\* a value given by its 8 bytes, least significant first
Bits(bytes) == [ i \in 1..64 |-> (bytes[((i - 1) \div 8) + 1] \div P[(i - 1) % 8]) % 2 ]
SmallBits(n) ==                     \* of an int
  [ i \in 1..64 |-> IF i > 31 THEN (IF n < 0 THEN 1 ELSE 0)
                    ELSE IF n >= 0 THEN (n \div P[i - 1]) % 2
                    ELSE 1 - (((-1 - n) \div P[i - 1]) % 2) ]

-----------------------------------------------------------------------------
\* zig-zag: the sign becomes the lowest bit, the other bits are inverted if it is set
Zig(b) == [ i \in 1..64 |-> IF i = 1 THEN b[64] ELSE (b[i - 1] + b[64]) % 2 ]
Unzig(z) == [ i \in 1..64 |-> IF i < 64 THEN (z[i + 1] + z[1]) % 2 ELSE z[1] ]

\* the position of the highest bit that is set (1 if there is none)
Top(z) == LET s == { i \in 1..64 : z[i] = 1 } IN IF s = {} THEN 1 ELSE CHOOSE i \in s : \A j \in s : j <= i

\* groups of seven bits, least significant first, all but the last with the high bit
Varint(z) ==
  LET groups == (Top(z) + 6) \div 7
      bit(g, j) == LET i == (7 * (g - 1)) + j + 1 IN IF i > 64 THEN 0 ELSE z[i]
  IN [ g \in 1..groups |->
        bit(g, 0) + (2 * bit(g, 1)) + (4 * bit(g, 2)) + (8 * bit(g, 3)) + (16 * bit(g, 4)) + (32 * bit(g, 5))
        + (64 * bit(g, 6)) + (IF g < groups THEN 128 ELSE 0) ]

Long(b) == Varint(Zig(b))
Num(n) == Long(SmallBits(n))
Str(s) == Num(Len(s)) \o s

\* A span: the 64 bit values id, trace, parent, ts, dur, cs, cr, ss, sr as bits, the
\* strings name and svc, and its tags in some order, as pairs of strings.
Tags(tags) ==
  IF tags = <<>> THEN Num(0)
  ELSE Num(Len(tags)) \o FlattenSeq([ i \in DOMAIN tags |-> Str(tags[i][1]) \o Str(tags[i][2]) ]) \o Num(0)

Enc(s) ==
  Long(s.id) \o Long(s.trace) \o Long(s.parent) \o Str(s.name) \o Str(s.svc) \o Long(s.ts) \o Long(s.dur)
  \o Long(s.cs) \o Long(s.cr) \o Long(s.ss) \o Long(s.sr) \o Tags(s.tags)

\* The same for strings that are too long to be written out, given by runs: pairs of a byte
\* and how often it comes.  At most one tag.
RECURSIVE Runs(_)
Runs(r) ==                              \* adjacent runs of the same byte are one
  IF Len(r) < 2 THEN r
  ELSE LET half == Len(r) \div 2
           a == Runs(SubSeq(r, 1, half))
           b == Runs(SubSeq(r, half + 1, Len(r)))
       IN IF a[Len(a)][1] = b[1][1]
          THEN SubSeq(a, 1, Len(a) - 1) \o << << b[1][1], a[Len(a)][2] + b[1][2] >> >> \o SubSeq(b, 2, Len(b))
          ELSE a \o b
Single(bytes) == [ i \in DOMAIN bytes |-> << bytes[i], 1 >> ]
LongStr(r) == Single(Num(FoldLeft(LAMBDA n, x : n + x[2], 0, r))) \o r
EncRuns(s) ==
  Runs(Single(Long(s.id) \o Long(s.trace) \o Long(s.parent)) \o LongStr(s.name) \o LongStr(s.svc)
       \o Single(Long(s.ts) \o Long(s.dur) \o Long(s.cs) \o Long(s.cr) \o Long(s.ss) \o Long(s.sr))
       \o (IF s.tags = <<>> THEN Single(Num(0))
           ELSE Single(Num(1)) \o LongStr(s.tags[1][1]) \o LongStr(s.tags[1][2]) \o Single(Num(0))))

-----------------------------------------------------------------------------
(* Reading: a position p in the message w; the result has the position after the  *)
(* value, 0 if there is no value.                                                 *)

RECURSIVE LastOf(_, _)
LastOf(w, p) == IF p > Len(w) THEN 0 ELSE IF w[p] < 128 THEN p ELSE LastOf(w, p + 1)

ReadLong(w, p) ==
  LET e == IF p = 0 THEN 0 ELSE LastOf(w, p) IN
  IF e = 0 THEN [ p |-> 0, v |-> SmallBits(0) ]
  ELSE [ p |-> e + 1,
         v |-> Unzig([ i \in 1..64 |-> LET q == p + ((i - 1) \div 7) IN IF q > e THEN 0 ELSE (w[q] \div P[(i - 1) % 7]) % 2 ]) ]

Huge == 1073741824
ToInt(b) ==                        \* anything too large for an int is Huge or -Huge
  IF \E i \in 31..63 : b[i] # b[64] THEN (IF b[64] = 1 THEN -Huge ELSE Huge)
  ELSE FoldLeft(LAMBDA acc, i : acc + (IF b[i] = 1 THEN P[i - 1] ELSE 0), IF b[64] = 1 THEN -Huge ELSE 0, [ i \in 1..30 |-> i ])

ReadStr(w, p) ==
  LET n == ReadLong(w, p)
      len == ToInt(n.v)
  IN IF n.p = 0 \/ len < 0 \/ len > Len(w) - n.p + 1 THEN [ p |-> 0, v |-> <<>> ]
     ELSE [ p |-> n.p + len, v |-> SubSeq(w, n.p, n.p + len - 1) ]

\* n pairs of strings
RECURSIVE ReadPairs(_, _, _, _)
ReadPairs(w, p, n, acc) ==
  IF n = 0 \/ p = 0 THEN [ p |-> p, v |-> acc ]
  ELSE LET k == ReadStr(w, p)
           v == IF k.p = 0 THEN k ELSE ReadStr(w, k.p)
       IN ReadPairs(w, v.p, n - 1, Append(acc, << k.v, v.v >>))

\* any number of blocks; one with a negative count is followed by its size in bytes
RECURSIVE ReadTags(_, _, _)
ReadTags(w, p, acc) ==
  LET c == ReadLong(w, p)
      n == ToInt(c.v)
      q == IF c.p # 0 /\ n < 0 THEN ReadLong(w, c.p).p ELSE c.p
  IN IF q = 0 THEN [ p |-> 0, v |-> <<>> ]
     ELSE IF n = 0 THEN [ p |-> q, v |-> acc ]
     ELSE LET r == ReadPairs(w, q, IF n < 0 THEN -n ELSE n, acc)
          IN IF r.p = 0 THEN [ p |-> 0, v |-> <<>> ] ELSE ReadTags(w, r.p, r.v)

Parse(w) ==
  LET id == ReadLong(w, 1)
      trace == ReadLong(w, id.p)
      parent == ReadLong(w, trace.p)
      name == ReadStr(w, parent.p)
      svc == ReadStr(w, name.p)
      ts == ReadLong(w, svc.p)
      dur == ReadLong(w, ts.p)
      cs == ReadLong(w, dur.p)
      cr == ReadLong(w, cs.p)
      ss == ReadLong(w, cr.p)
      sr == ReadLong(w, ss.p)
      tags == ReadTags(w, sr.p, <<>>)
  IN [ p |-> tags.p,
       s |-> [ id |-> id.v, trace |-> trace.v, parent |-> parent.v, name |-> name.v, svc |-> svc.v, ts |-> ts.v,
               dur |-> dur.v, cs |-> cs.v, cr |-> cr.v, ss |-> ss.v, sr |-> sr.v, tags |-> tags.v ] ]

\* the tags as a set of pairs: the last of equal keys wins
TagSet(tags) == { tags[i] : i \in { i \in DOMAIN tags : \A j \in i + 1..Len(tags) : tags[j][1] # tags[i][1] } }
Distinct(tags) == \A i, j \in DOMAIN tags : i # j => tags[i][1] # tags[j][1]

Same(s, t) ==                      \* the same span, whatever the order of the tags
  /\ s.id = t.id /\ s.trace = t.trace /\ s.parent = t.parent /\ s.name = t.name /\ s.svc = t.svc
  /\ s.ts = t.ts /\ s.dur = t.dur /\ s.cs = t.cs /\ s.cr = t.cr /\ s.ss = t.ss /\ s.sr = t.sr
  /\ TagSet(s.tags) = TagSet(t.tags)
=================================================================================
