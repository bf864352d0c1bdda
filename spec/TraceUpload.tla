------------------------------- MODULE TraceUpload -------------------------------
(* Recorded uploads: the bytes that arrived (decompressed) and whether an error came    *)
(* after them, the answer, and the spans that came out of the channel, in order.        *)
EXTENDS Translate, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

Span(x) == [ id |-> x.id, trace |-> x.trace, parent |-> x.parent, name |-> x.name, svc |-> x.svc, ts |-> x.ts, dur |-> x.dur,
             cs |-> x.cs, cr |-> x.cr, ss |-> x.ss, sr |-> x.sr, tags |-> { x.tags[i] : i \in DOMAIN x.tags } ]

CaseOk(c) ==
  LET spans == [ i \in DOMAIN c.spans |-> Span(c.spans[i]) ]
  IN /\ c.status \in { 202, 400 }
     /\ c.status = 400 => spans = <<>>
     /\ IF c.fmt = "v1" /\ ~c.json THEN c.status = 400
        ELSE Fits(Verdict(c.fmt, c.w, c.broken), c.status = 202, spans)

(* A document too large to be written out: a part of it comes c.n times.  It has no spans, or *)
(* is the span before it once more.  The spans that came out are given as runs of equal ones. *)
RECURSIVE Often(_, _)
Often(w, n) == IF n = 0 THEN <<>> ELSE w \o Often(w, n - 1)
LargeOk(c) ==
  LET doc(n) == c.head \o Often(c.item, n) \o c.tail
      one == Verdict(c.fmt, doc(1), FALSE)
      two == Verdict(c.fmt, doc(2), FALSE)
      runs == [ i \in DOMAIN c.runs |-> << c.runs[i].n, Span(c.runs[i].span) >> ]
  IN /\ one.is = two.is /\ one.is # "either"
     /\ IF two.is = "reject" THEN c.status = 400 /\ runs = <<>>
        ELSE /\ c.status = 202
             /\ IF one.spans = two.spans
                THEN /\ Len(runs) = Len(one.spans)
                     /\ \A i \in DOMAIN runs : runs[i] = << 1, one.spans[i] >>
                ELSE /\ one.spans = << one.spans[1], one.spans[1] >> /\ two.spans = one.spans \o << one.spans[1] >>
                     /\ runs = << << c.n + 1, one.spans[1] >> >>
VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET ok(c) == IF Logs[k].large THEN LargeOk(c) ELSE CaseOk(c)
               bad == { i \in DOMAIN Logs[k].cases : ~ok(Logs[k].cases[i]) }
           IN (bad = {} /\ Logs[k].extra = 0) \/ PrintT(<<"REJECT", Logs[k].id, bad>>)
Spec == Init /\ [][Next]_vars
==================================================================================
