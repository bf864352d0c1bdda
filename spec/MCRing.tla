--------------------------------- MODULE MCRing ---------------------------------
(* The ring as it is built (an array and a position, written span by span under *)
(* a lock, copied out under the lock) shows what Ring says.                     *)
EXTENDS Ring, TLC
CONSTANTS Cap, MaxSpans, MaxTrace
VARIABLES arr, pos, n, lock, todo, whole, snap
vars == <<arr, pos, n, lock, todo, whole, snap>>
\* n: spans written; whole: spans of completely written traces; snap: the last snapshot
Init == arr = [ i \in 0..(Cap - 1) |-> 0 ] /\ pos = 0 /\ n = 0 /\ lock = FALSE /\ todo = 0 /\ whole = 0 /\ snap = <<>>
Begin == \E k \in 0..MaxTrace : ~lock /\ n + k <= MaxSpans /\ lock' = TRUE /\ todo' = k /\ UNCHANGED <<arr, pos, n, whole, snap>>
Write == /\ lock /\ todo > 0
         /\ arr' = [ arr EXCEPT ![pos] = n + 1 ] /\ pos' = (pos + 1) % Cap /\ n' = n + 1 /\ todo' = todo - 1
         /\ UNCHANGED <<lock, whole, snap>>
End == lock /\ todo = 0 /\ lock' = FALSE /\ whole' = n /\ UNCHANGED <<arr, pos, n, todo, snap>>
Read == /\ ~lock
        /\ snap' = SelectSeq([ i \in 1..Cap |-> arr[(pos + i - 1) % Cap] ], LAMBDA x : x # 0)
        /\ UNCHANGED <<arr, pos, n, lock, todo, whole>>
Next == Begin \/ Write \/ End \/ Read
Spec == Init /\ [][Next]_vars
LastN(m) == LET s == Shown(Cap, m) IN [ i \in 1..(s[2] - s[1] + 1) |-> s[1] + i - 1 ]
\* snapshots are states after whole traces, and do not go back
Exact == [][ snap' # snap => snap' = LastN(whole) ]_vars
Forward == [][ snap' # snap /\ snap # <<>> => snap[Len(snap)] <= snap'[Len(snap')] ]_vars
=================================================================================
