-------------------------------- MODULE TraceRing --------------------------------
(* Validation of snapshots of SpansBuffer.  A log has the number of spans after   *)
(* each trace (ends, beginning with 0) and the snapshots of one reader in order:  *)
(* runs, the shown spans as runs <<first, last>> of consecutive numbers; lo and   *)
(* hi, how many traces were certainly written when it was begun, and possibly     *)
(* written when it was done.                                                      *)
EXTENDS Ring, Json, IOUtils, TLC

Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

Matches(cap, runs, n) ==
  LET s == Shown(cap, n) IN
  IF s[1] > s[2] THEN runs = <<>> ELSE runs = << s >>

\* the numbers of traces after which the snapshot may have been taken
Candidates(log, e, from) ==
  { i \in e.lo..e.hi : i >= from /\ Matches(log.cap, e.runs, log.ends[i + 1]) }

VARIABLES k, l, pos
vars == <<k, l, pos>>
Init == k \in DOMAIN Logs /\ l = 1 /\ pos = 0
Next == LET log == Logs[k]
            c == Candidates(log, log.snaps[l], pos)
        IN /\ l <= Len(log.snaps)
           /\ pos >= 0
           /\ pos' = IF c = {} THEN -1 ELSE CHOOSE i \in c : \A j \in c : i <= j
           /\ l' = l + 1
           /\ k' = k
           /\ c = {} => PrintT(<<"REJECT", log.id, l>>)
Spec == Init /\ [][Next]_vars
==================================================================================
