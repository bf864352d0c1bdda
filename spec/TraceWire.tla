-------------------------------- MODULE TraceWire --------------------------------
(* Recorded encodings (e: span, message, decoded message) and decodings of other    *)
(* messages (d: message, accepted, span); and encodings of spans with long strings    *)
(* (r), which are given by runs.  64 bit values are given as 8 bytes.               *)
EXTENDS Wire, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

Span(x) == [ id |-> Bits(x.id), trace |-> Bits(x.trace), parent |-> Bits(x.parent), name |-> x.name, svc |-> x.svc,
             ts |-> Bits(x.ts), dur |-> Bits(x.dur), cs |-> Bits(x.cs), cr |-> Bits(x.cr), ss |-> Bits(x.ss),
             sr |-> Bits(x.sr), tags |-> x.tags ]

EncOk(c) ==
  LET r == Parse(c.wire) IN
  /\ r.p = Len(c.wire) + 1                       \* a message and nothing else
  /\ Distinct(r.s.tags)
  /\ Enc(r.s) = c.wire                           \* in its one form
  /\ Same(r.s, Span(c.span))
  /\ c.ok /\ c.back = c.span                     \* and what the code reads from it
DecOk(c) ==
  LET r == Parse(c.wire) IN
  /\ c.ok = (r.p # 0)
  /\ c.ok => Distinct(c.span.tags) /\ Same(r.s, Span(c.span))
RunsOk(c) == /\ EncRuns(Span(c.span)) = c.wire
             /\ c.ok /\ c.back = c.span

Ok(log) == \A i \in DOMAIN log.cases :
  CASE log.kind = "e" -> EncOk(log.cases[i]) [] log.kind = "d" -> DecOk(log.cases[i]) [] log.kind = "r" -> RunsOk(log.cases[i])
VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ Ok(Logs[k]) \/ PrintT(<<"REJECT", Logs[k].id, 1>>)
Spec == Init /\ [][Next]_vars
==================================================================================
