------------------------------ MODULE MCSpanTree ------------------------------
(* What SpanTree promises, for every case that GenSpanTree enumerates.        *)
EXTENDS GenSpanTree

VARIABLE case
MCInit == case \in Cases /\ done = FALSE
MCNext == UNCHANGED <<case, done>>
MCSpec == MCInit /\ [][MCNext]_<<case, done>>

Conv(sp) == [ sp EXCEPT !.tags = ToSet(@) ]
Reports == [ i \in DOMAIN case |-> Conv(case[i]) ]
Merged == AddAll(Reports)
Of(id) == { i \in DOMAIN Reports : Reports[i].id = id }

NothingLost ==
  \A id \in DOMAIN Merged :
    LET m == Merged[id]
        R == { Reports[i] : i \in Of(id) }
    IN
    /\ \A r \in R : /\ Known(r.cs) => Known(m.cs)
                    /\ Known(r.cr) => Known(m.cr)
                    /\ Known(r.ss) => Known(m.ss)
                    /\ Known(r.sr) => Known(m.sr)
                    /\ Known(r.ts) => Known(m.ts)
                    /\ r.par # 0 => m.par # 0
                    /\ Keys(r.tags) \subseteq Keys(m.tags)
                    /\ r.name # "" => m.name # ""
                    /\ r.svc # "" => m.svc # ""
    \* and nothing is made up
    /\ m.name \in { r.name : r \in R } /\ m.svc \in { r.svc : r \in R } /\ m.par \in { r.par : r \in R }
    /\ <<m.ts, m.dur>> \in { <<r.ts, r.dur>> : r \in R }
    /\ m.cs \in { r.cs : r \in R } /\ m.cr \in { r.cr : r \in R }
    /\ m.ss \in { r.ss : r \in R } /\ m.sr \in { r.sr : r \in R }
    /\ \A p \in m.tags : \E r \in R : p \in r.tags
    /\ Cardinality(m.tags) = Cardinality(Keys(m.tags))
    \* server reports decide
    /\ \A r \in R : (IsServer(r) /\ r.name # "") => \E q \in R : IsServer(q) /\ q.name = m.name
    /\ \A r \in R : (IsServer(r) /\ r.svc # "") => \E q \in R : IsServer(q) /\ q.svc = m.svc

\* the two halves of a span, in either order
Halves ==
  (Len(Reports) = 2 /\ Reports[1].id = Reports[2].id /\ IsServer(Reports[1]) /\ ~IsServer(Reports[2])
  /\ Known(Reports[1].sr) /\ Known(Reports[1].ss) /\ ~Known(Reports[1].cs) /\ ~Known(Reports[1].cr)) =>
    LET a == Merge(Reports[1], Reports[2])
        b == Merge(Reports[2], Reports[1])
    IN [ a EXCEPT !.ts = 0, !.dur = 0, !.par = 0 ] = [ b EXCEPT !.ts = 0, !.dur = 0, !.par = 0 ]

O == Outcome(Merged, 0, T)
OneRoot ==
  O.ok =>
    LET f == [ i \in { sp.id : sp \in O.spans } |-> CHOOSE sp \in O.spans : sp.id = i ] IN
    /\ Cardinality(Roots(f)) = 1
    /\ DOMAIN Merged \subseteq DOMAIN f /\ Cardinality(DOMAIN f) <= Cardinality(DOMAIN Merged) + 1
    /\ \A i \in DOMAIN Merged : f[i].par = Merged[i].par
    /\ \A i \in DOMAIN f \ DOMAIN Merged : f[i].svc = "fake-root" /\ i \notin DOMAIN Merged
DroppedRootless == ~O.ok => Cardinality(Roots(Merged)) # 1
\* start times move only below spans with four timings, durations only of those
OnlyTimes ==
  O.ok => \A sp \in O.spans : sp.id \in DOMAIN Merged =>
    LET m == Merged[sp.id] IN
    /\ [ sp EXCEPT !.ts = 0, !.dur = 0 ] = [ m EXCEPT !.ts = 0, !.dur = 0 ]
    /\ ~AllFour(m) => sp.dur = m.dur
    /\ ((\A i \in DOMAIN Merged : ~AllFour(Merged[i])) /\ ~Broken(m.ts)) => sp.ts = m.ts
=============================================================================
