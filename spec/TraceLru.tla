-------------------------------- MODULE TraceLru --------------------------------
(* Recorded operations of the LRU cache.  A log has the limit, the accounted size *)
(* of an entry beside its string (over), the lengths of the strings, and the      *)
(* operations with what they returned, and Count and Size after each.             *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC

Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

VARIABLES k, l, order
vars == <<k, l, order>>

Len8(i) == Logs[k].len[i]
C == INSTANCE Lru

Init == k \in DOMAIN Logs /\ l = 1 /\ order = <<>>
After(e) ==
  IF e.o = "set" THEN C!Set(order, e.i, Logs[k].over, Logs[k].max) ELSE C!Get(order, e.i)
Good(e, o) ==
  /\ e.count = Len(o) /\ e.size = C!Size(o, Logs[k].over)
  /\ e.o = "get" => (e.hit = C!Has(order, e.i)) /\ e.same
Next == /\ l > 0
        /\ l <= Len(Logs[k].ops)
        /\ k' = k
        /\ LET e == Logs[k].ops[l]
               o == After(e)
           IN IF Good(e, o) THEN order' = o /\ l' = l + 1
              ELSE order' = order /\ l' = 0 /\ PrintT(<<"REJECT", Logs[k].id, l>>)
Spec == Init /\ [][Next]_vars
=================================================================================
