------------------------------- MODULE TraceShared -------------------------------
(* The shared cache, told by its metrics: lookups one after the other, and readings of *)
(* binary.cache.count, .size and .hit.rate (as the number of hits it means, -1: no number).  *)
(* Rounds in which many looked up at the same time have strings that all fit.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

VARIABLES k, l, order, looks, hits
vars == <<k, l, order, looks, hits>>

Len8(i) == Logs[k].len[i]
C == INSTANCE Lru

Init == k \in DOMAIN Logs /\ l = 1 /\ order = <<>> /\ looks = 0 /\ hits = 0
\* a lookup finds the string, or makes it the newest
Look(o, i) == C!Set(o, i, Logs[k].over, Logs[k].max)
Go == l' = l + 1
Bad == l' = 0 /\ PrintT(<<"REJECT", Logs[k].id, l>>)
\* strings of which nothing had to go: all are there, in some order
Together(e) == LET new == { e.is[x] : x \in DOMAIN e.is } IN SetToSeq(new) \o SelectSeq(order, LAMBDA x : x \notin new)
Next == /\ l > 0 /\ l <= Len(Logs[k].ops) /\ k' = k
        /\ LET e == Logs[k].ops[l]
           IN CASE e.o = "look" ->
                     IF e.same THEN Go /\ order' = Look(order, e.i) /\ looks' = looks + 1 /\ hits' = hits + (IF C!Has(order, e.i) THEN 1 ELSE 0)
                     ELSE Bad /\ UNCHANGED << order, looks, hits >>
                [] e.o = "together" ->
                     \* two that miss the same string at the same time both miss, so only a range of hits is known
                     Go /\ order' = Together(e) /\ looks' = -1 /\ hits' = 0
                [] OTHER ->
                     /\ IF /\ e.count = Len(order) /\ e.size = C!Size(order, Logs[k].over)
                           /\ looks >= 0 => e.exact /\ e.hits = hits
                        THEN Go ELSE Bad
                     /\ order' = order /\ looks' = 0 /\ hits' = 0
Spec == Init /\ [][Next]_vars
==================================================================================
