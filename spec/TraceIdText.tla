------------------------------- MODULE TraceIdText -------------------------------
(* Recorded parses (p: text, ok, value), JSON parses (j), ids written in every      *)
(* form (f: id and its texts and what was read back) and values written as JSON and *)
(* read back (r: before, after).                                                    *)
EXTENDS IdText, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

ParseOk(c) == /\ c.ok = Accepted(c.b)
              /\ c.ok => c.v = Value(c.b)
JsonOk(c) == /\ c.ok = JsonAccepted(c.b)
             /\ c.ok => c.v = JsonValue(c.b)
FormatOk(c) == /\ \A i \in DOMAIN c.str : c.str[i] = Format(c.v)
               /\ \A i \in DOMAIN c.json : c.json[i] = Json(c.v)
               /\ \A i \in DOMAIN c.back : c.back[i] = c.v
RoundOk(c) == c[1] = c[2]

Ok(log) == \A i \in DOMAIN log.cases :
  CASE log.kind = "p" -> ParseOk(log.cases[i])
    [] log.kind = "j" -> JsonOk(log.cases[i])
    [] log.kind = "f" -> FormatOk(log.cases[i])
    [] log.kind = "r" -> RoundOk(log.cases[i])
VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ Ok(Logs[k]) \/ PrintT(<<"REJECT", Logs[k].id, 1>>)
Spec == Init /\ [][Next]_vars
==================================================================================
