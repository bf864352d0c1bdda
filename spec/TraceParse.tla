------------------------------- MODULE TraceParse -------------------------------
(* Recorded parses.  Each case has the bytes w that the parser was given (and whether   *)
(* an error came after them), and the outcomes of all the ways in which they, or        *)
(* another rendering of the same document, were given to it.                            *)
EXTENDS Translate, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

Span(x) == [ id |-> x.id, trace |-> x.trace, parent |-> x.parent, name |-> x.name, svc |-> x.svc, ts |-> x.ts, dur |-> x.dur,
             cs |-> x.cs, cr |-> x.cr, ss |-> x.ss, sr |-> x.sr, tags |-> { x.tags[i] : i \in DOMAIN x.tags } ]
\* a map has a key only once
Once(x) == \A i, j \in DOMAIN x.tags : i # j => x.tags[i][1] # x.tags[j][1]

OutOk(verdict, o) ==
  /\ \A i \in DOMAIN o.spans : Once(o.spans[i])
  /\ Fits(verdict, o.ok, [ i \in DOMAIN o.spans |-> Span(o.spans[i]) ])

CaseOk(fmt, c) ==
  LET verdict == Verdict(fmt, c.w, c.broken)
  IN /\ \A i \in DOMAIN c.outs : OutOk(verdict, c.outs[i])
     /\ "must" \in DOMAIN c /\ verdict.is # c.must => PrintT(<<"MISFIT", c>>)     \* the generator is wrong

VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Bad(log) == { i \in DOMAIN log.cases : ~CaseOk(log.fmt, log.cases[i]) }
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET bad == Bad(Logs[k])
           IN bad = {} \/ PrintT(<<"REJECT", Logs[k].id, CHOOSE i \in bad : \A j \in bad : i <= j>>)
Spec == Init /\ [][Next]_vars
==================================================================================
