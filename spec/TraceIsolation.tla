----------------------------- MODULE TraceIsolation -----------------------------
(* Recorded histories of requests in one process.  For each body, the different        *)
(* outcomes that it had, when it was parsed and (of the spans that were returned then)  *)
(* at the end of the history.  The outcome is a function of the body.                  *)
EXTENDS Translate, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)
W == INSTANCE Wire

Span(x) == [ id |-> x.id, trace |-> x.trace, parent |-> x.parent, name |-> x.name, svc |-> x.svc, ts |-> x.ts, dur |-> x.dur,
             cs |-> x.cs, cr |-> x.cr, ss |-> x.ss, sr |-> x.sr, tags |-> { x.tags[i] : i \in DOMAIN x.tags } ]
BitSpan(x) == [ id |-> W!Bits(x.id), trace |-> W!Bits(x.trace), parent |-> W!Bits(x.parent), name |-> x.name, svc |-> x.svc,
                ts |-> W!Bits(x.ts), dur |-> W!Bits(x.dur), cs |-> W!Bits(x.cs), cr |-> W!Bits(x.cr), ss |-> W!Bits(x.ss),
                sr |-> W!Bits(x.sr), tags |-> x.tags ]

OutOk(c, o) ==
  IF c.fmt = "binary"
  THEN IF c.broken THEN ~o.ok
       ELSE LET r == W!Parse(c.w) IN o.ok = (r.p # 0) /\ (o.ok => W!Same(r.s, BitSpan(o.spans[1])))
  ELSE Fits(Verdict(c.fmt, c.w, c.broken), o.ok, [ i \in DOMAIN o.spans |-> Span(o.spans[i]) ])

\* A reader that breaks in the middle of its last piece may be noticed before or after the document's end.
CaseOk(c) == (c.broken \/ Len(c.outs) = 1) /\ \A i \in DOMAIN c.outs : OutOk(c, c.outs[i])
VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET bad == { i \in DOMAIN Logs[k].cases : ~CaseOk(Logs[k].cases[i]) }
           IN bad = {} \/ PrintT(<<"REJECT", Logs[k].id, CHOOSE i \in bad : \A j \in bad : i <= j>>)
Spec == Init /\ [][Next]_vars
==================================================================================
