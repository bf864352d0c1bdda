------------------------------- MODULE TraceReader -------------------------------
(* Recorded reads of texts with the methods of the parser, with buffers and reads of    *)
(* many sizes: the value that was read (or that there is none), whether skipping it     *)
(* worked, and the type of what comes next after reading and after skipping.            *)
EXTENDS JsonText, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

RECURSIVE SameValue(_, _)
SameValue(a, b) ==
  a.t = b.t /\
  CASE a.t \in { "s", "n", "b", "z" } -> a.s = b.s
    [] a.t = "a" -> Len(a.a) = Len(b.a) /\ \A i \in DOMAIN a.a : SameValue(a.a[i], b.a[i])
    [] a.t = "o" -> Len(a.m) = Len(b.m) /\ \A i \in DOMAIN a.m : a.m[i][1] = b.m[i][1] /\ SameValue(a.m[i][2], b.m[i][2])

NextType(w, p) ==                  \* of a strict text
  LET c == At(w, SkipSpace(w, p, LooseSpace))
  IN IF c = QUOTE THEN "String" ELSE IF c = 45 \/ c \in Digits THEN "Number" ELSE IF c = 116 \/ c = 102 THEN "Boolean"
     ELSE IF c = 110 THEN "Null" ELSE IF c = OPENA THEN "ArrayBegin" ELSE IF c = CLOSEA THEN "ArrayEnd"
     ELSE IF c = OPENO THEN "ObjectBegin" ELSE IF c = CLOSEO THEN "ObjectEnd" ELSE "none"

\* A number at the very end of a text might go on: the parser need not take it.
OutOk(w, o) ==
  LET s == Strict(w)
      l == IF s.p # 0 THEN s ELSE Loose(w)
      open == l.v.t = "n" /\ l.p = Len(w) + 1
  IN IF l.p = 0 THEN ~o.ok /\ ~o.skip
     ELSE IF s.p = 0 THEN TRUE
     ELSE IF open /\ ~o.ok THEN ~o.skip
     ELSE o.ok /\ o.skip /\ SameValue(o.v, s.v) /\ o.next = NextType(w, s.p) /\ o.after = o.next

CaseOk(c) == \A i \in DOMAIN c.outs : OutOk(c.w, c.outs[i])
VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET bad == { i \in DOMAIN Logs[k].cases : ~CaseOk(Logs[k].cases[i]) }
           IN bad = {} \/ PrintT(<<"REJECT", Logs[k].id, CHOOSE i \in bad : \A j \in bad : i <= j>>)
Spec == Init /\ [][Next]_vars
==================================================================================
