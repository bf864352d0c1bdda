-------------------------------- MODULE TraceLong --------------------------------
(* Recorded parses of documents with one span and a string too long to be written out:   *)
(* between head and tail, an item comes c.n times.  The strings of the span are given as  *)
(* << unit, how often >>.                                                                 *)
EXTENDS Translate, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

RECURSIVE Often(_, _)
Often(w, n) == IF n = 0 THEN <<>> ELSE w \o Often(w, n - 1)

CaseOk(fmt, c) ==
  LET doc(n) == Verdict(fmt, c.head \o Often(c.item, n) \o c.tail, FALSE)
      one == doc(1).spans[1]
      two == doc(2).spans[1]
      \* a string of the document with the item once, twice, and n times
      str(s1, s2) == IF s1 = s2 THEN << s1, 1 >> ELSE << s1, c.n >>
      fair(s1, s2) == s1 = s2 \/ s2 = s1 \o s1
      changed1 == one.tags \ two.tags
      changed2 == two.tags \ one.tags
      tags == { << << t[1], 1 >>, << t[2], 1 >> >> : t \in one.tags \cap two.tags }
              \cup { << str(t[1], u[1]), str(t[2], u[2]) >> : t \in changed1, u \in changed2 }
      same(f) == one[f] = two[f] /\ c.span[f] = one[f]
  IN /\ doc(1).is = "accept" /\ doc(2).is = "accept" /\ Len(doc(1).spans) = 1
     /\ Cardinality(changed1) < 2 /\ Cardinality(changed2) = Cardinality(changed1)
     /\ \A t \in changed1, u \in changed2 : fair(t[1], u[1]) /\ fair(t[2], u[2])
     /\ fair(one.name, two.name) /\ fair(one.svc, two.svc)
     \* the document is what it should be; and its outcome
     /\ c.ok
     /\ \A f \in { "id", "trace", "parent", "ts", "dur", "cs", "cr", "ss", "sr" } : same(f)
     /\ c.span.name = str(one.name, two.name)
     /\ c.span.svc = str(one.svc, two.svc)
     /\ { c.span.tags[i] : i \in DOMAIN c.span.tags } = tags
     /\ Len(c.span.tags) = Cardinality(tags)

VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Bad(log) == { i \in DOMAIN log.cases : ~CaseOk(log.fmt, log.cases[i]) }
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET bad == Bad(Logs[k])
           IN bad = {} \/ PrintT(<<"REJECT", Logs[k].id, CHOOSE i \in bad : \A j \in bad : i <= j>>)
Spec == Init /\ [][Next]_vars
==================================================================================
