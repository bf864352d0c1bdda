--------------------------------- MODULE MCWire ---------------------------------
(* Reading is the inverse of writing, other block structures mean the same, and no *)
(* strict prefix of a message is a message.                                        *)
EXTENDS Wire

Edge == { SmallBits(n) : n \in { 0, 1, -1, 2, 63, 64, -64, -65, 127, 128, 300, -8192, 8191, 8192, 1000000, -2147483647 } }
        \cup { [ i \in 1..64 |-> IF i = b THEN 1 ELSE 0 ] : b \in 1..64 }
        \cup { [ i \in 1..64 |-> IF i = b THEN 0 ELSE 1 ] : b \in 1..64 }
        \cup { [ i \in 1..64 |-> IF i < b THEN 1 ELSE 0 ] : b \in 2..64 }
Strs == { <<>>, << 0 >>, << 97, 200 >>, [ i \in 1..64 |-> 1 ] }
TagLists == { <<>>, << << <<97>>, <<>> >> >>, << << <<>>, <<98>> >>, << <<97>>, <<255, 0>> >> >> ,
              << << <<97>>, <<1>> >>, << <<98>>, <<2>> >>, << <<99>>, <<3>> >> >> }
Base == [ id |-> SmallBits(5), trace |-> SmallBits(-7), parent |-> SmallBits(0), name |-> << 110 >>, svc |-> <<>>,
          ts |-> SmallBits(1000), dur |-> SmallBits(12), cs |-> SmallBits(0), cr |-> SmallBits(3), ss |-> SmallBits(0),
          sr |-> SmallBits(-1), tags |-> <<>> ]
Fields == { "id", "trace", "parent", "ts", "dur", "cs", "cr", "ss", "sr" }

VARIABLES s, go         \* the invariants are looked at in the second state (by all workers)
vars == << s, go >>
Init == go = FALSE /\ s \in { [ Base EXCEPT ![f] = v ] : f \in Fields, v \in Edge }
            \cup { [ Base EXCEPT !.name = n, !.svc = m, !.tags = t ] : n \in Strs, m \in Strs, t \in TagLists }
Next == ~go /\ go' = TRUE /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

W == Enc(s)
Lossless == go => Parse(W) = [ p |-> Len(W) + 1, s |-> s ]
Bytes == go => \A i \in DOMAIN W : W[i] \in 0..255
NoPrefix == go => \A n \in 0..Len(W) - 1 : Parse(SubSeq(W, 1, n)).p = 0

\* the same tags in two blocks, the second with a negative count and a size
Head11 == Enc([ s EXCEPT !.tags = <<>> ])
Blocks(t, c) == LET pair(i) == Str(t[i][1]) \o Str(t[i][2])
                    rest == FlattenSeq([ i \in 1..Len(t) - c |-> pair(c + i) ])
                IN SubSeq(Head11, 1, Len(Head11) - 1) \o Num(c) \o FlattenSeq([ i \in 1..c |-> pair(i) ])
                   \o Num(-(Len(t) - c)) \o Num(Len(rest)) \o rest \o Num(0)
OtherBlocks == go => \A c \in 1..Len(s.tags) - 1 :
  LET r == Parse(Blocks(s.tags, c)) IN r.p # 0 /\ r.s = s
=================================================================================
