-------------------------------- MODULE MCEncoder --------------------------------
(* The memory of the messages (balance/encoder.go): encoders with a piece of       *)
(* memory each, taken from a pool by any number of goroutines.  A message takes    *)
(* a key of one cell and a value from the rest of the piece; a value that does not *)
(* fit is written elsewhere, after its beginning was written here.  No message     *)
(* ever changes.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Workers, Msgs, Piece, Limit, Longest, Pieces
\* Piece: cells of a piece; Limit: cells a value may take of it; Longest: of a value

VARIABLES mem, enc, pool, pc, made, used
vars == <<mem, enc, pool, pc, made, used>>
\* mem: piece -> cell -> message that wrote it; enc: encoder -> <<piece, first free cell>>
\* pc: worker -> <<>> or <<encoder, message, cells of the value, cells written>>
\* made: message -> <<piece, key cell, first value cell, cells>> (piece 0: elsewhere)

Init == /\ mem = [ i \in 1..Pieces |-> [ c \in 1..Piece |-> 0 ] ] /\ enc = <<>> /\ pool = {}
        /\ pc = [ w \in 1..Workers |-> <<>> ] /\ made = <<>> /\ used = 0
Free(e) == Piece - enc[e][2] + 1
Begin(w) ==
  /\ pc[w] = <<>> /\ Len(made) < Msgs
  /\ \E e \in pool \cup { Len(enc) + 1 }, n \in 1..Longest :
       LET renew == e > Len(enc) \/ (e <= Len(enc) /\ Free(e) < 1 + Limit)
           at == IF renew THEN << used + 1, 1 >> ELSE enc[e]
       IN /\ ~renew \/ used < Pieces
          /\ used' = IF renew THEN used + 1 ELSE used
          /\ pool' = pool \ {e}
          /\ made' = Append(made, << at[1], at[2], IF n <= Limit THEN at[2] + 1 ELSE 0, n >>)
          /\ enc' = IF e > Len(enc) THEN Append(enc, << at[1], at[2] + 1 >>) ELSE [ enc EXCEPT ![e] = << at[1], at[2] + 1 >> ]
          /\ mem' = [ mem EXCEPT ![at[1]][at[2]] = Len(made) + 1 ]          \* the key
          /\ pc' = [ pc EXCEPT ![w] = << e, Len(made) + 1, n, 0 >> ]
Write(w) ==
  /\ pc[w] # <<>> /\ pc[w][4] < (IF pc[w][3] > Limit THEN Limit ELSE pc[w][3])
  /\ LET e == pc[w][1] IN mem' = [ mem EXCEPT ![enc[e][1]][enc[e][2] + pc[w][4]] = pc[w][2] ]
  /\ pc' = [ pc EXCEPT ![w][4] = @ + 1 ] /\ UNCHANGED <<enc, pool, made, used>>
Finish(w) ==
  /\ pc[w] # <<>> /\ pc[w][4] = (IF pc[w][3] > Limit THEN Limit ELSE pc[w][3])
  /\ LET e == pc[w][1] IN
       /\ enc' = IF pc[w][3] <= Limit THEN [ enc EXCEPT ![e] = << @[1], @[2] + pc[w][3] >> ] ELSE enc
       /\ pool' = pool \cup {e}
  /\ pc' = [ pc EXCEPT ![w] = <<>> ] /\ UNCHANGED <<mem, made, used>>
Next == \E w \in 1..Workers : Begin(w) \/ Write(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars

Busy(m) == \E w \in 1..Workers : pc[w] # <<>> /\ pc[w][2] = m
Unchanged == \A m \in DOMAIN made :
  /\ mem[made[m][1]][made[m][2]] = m
  /\ ~Busy(m) /\ made[m][3] > 0 => \A c \in 0..made[m][4] - 1 : mem[made[m][1]][made[m][3] + c] = m
==================================================================================
