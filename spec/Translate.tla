------------------------------- MODULE Translate -------------------------------
(***************************************************************************)
(* From documents to spans (codec/json-v1.go, json-v2.go, jaeger.go).      *)
(* Documents are the values of JsonText; a span has its ids and times as   *)
(* 8 bytes (Num64), strings as bytes, and its tags as a set of pairs.      *)
(***************************************************************************)
EXTENDS JsonText, Num64
Id == INSTANCE IdText

-----------------------------------------------------------------------------
(* What a well-typed document is.  A type is                                 *)
(*   [k |-> "id" | "num" | "str" | "lit" | "any" | "map"]                    *)
(*   [k |-> "arr", e |-> type of the elements]                               *)
(*   [k |-> "obj", f |-> << <<name, type>>, ... >>]  the members it knows    *)
(*   [k |-> "dict", e |-> type of the members' values]                       *)

T(k) == [ k |-> k ]
ArrT(e) == [ k |-> "arr", e |-> e ]
ObjT(f) == [ k |-> "obj", f |-> [ i \in DOMAIN f |-> << Ascii(f[i][1]), f[i][2] >> ] ]
DictT(e) == [ k |-> "dict", e |-> e ]

EndpointT == ObjT(<< << "serviceName", T("str") >> >>)
IdsT == << << "traceId", T("id") >>, << "id", T("id") >>, << "parentId", T("id") >>, << "name", T("str") >>,
           << "timestamp", T("num") >>, << "duration", T("num") >> >>
AnnotationT == ObjT(<< << "timestamp", T("num") >>, << "value", T("str") >>, << "endpoint", EndpointT >> >>)
BinaryT == ObjT(<< << "key", T("str") >>, << "value", T("lit") >>, << "endpoint", EndpointT >> >>)
V1T == ArrT(ObjT(IdsT \o << << "annotations", ArrT(AnnotationT) >>, << "binaryAnnotations", ArrT(BinaryT) >> >>))
V2T == ArrT(ObjT(IdsT \o << << "tags", DictT(T("str")) >>, << "kind", T("str") >>, << "localEndpoint", EndpointT >> >>))
RefT == ObjT(<< << "refType", T("str") >>, << "spanID", T("id") >> >>)
JTagT == ObjT(<< << "key", T("str") >>, << "value", T("any") >> >>)
JSpanT == ObjT(<< << "traceID", T("id") >>, << "spanID", T("id") >>, << "operationName", T("str") >>, << "references", ArrT(RefT) >>,
                  << "startTime", T("num") >>, << "duration", T("num") >>, << "processID", T("str") >>, << "tags", ArrT(JTagT) >> >>)
JaegerT == ObjT(<< << "data", ArrT(ObjT(<< << "spans", ArrT(JSpanT) >>, << "processes", DictT(EndpointT) >> >>)) >> >>)

Type == [ v1 |-> V1T, v2 |-> V2T, jaeger |-> JaegerT ]

Members(v, name) == { i \in DOMAIN v.m : v.m[i][1] = name }
Unsigned(s) == \A i \in DOMAIN s : s[i] \in Digits
Lower(s) == [ i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i] ]

\* Null is an id in v1 and v2, and leaves everything as it is in a Jaeger document.
RECURSIVE Typed(_, _, _)
Typed(v, t, nulls) ==
  CASE t.k = "any" -> TRUE
    [] t.k = "id" -> v.t = "z" \/ (v.t = "s" /\ Id!Accepted(v.s))
    [] t.k = "lit" -> v.t \in { "s", "n", "b", "z" }
    [] t.k \in { "num", "str", "arr", "obj", "dict" } /\ v.t = "z" -> nulls
    [] t.k = "num" -> v.t = "n" /\ Unsigned(v.s)
    [] t.k = "str" -> v.t = "s"
    [] t.k = "arr" -> v.t = "a" /\ \A i \in DOMAIN v.a : Typed(v.a[i], t.e, nulls)
    [] t.k = "dict" -> v.t = "o" /\ \A i \in DOMAIN v.m : Typed(v.m[i][2], t.e, nulls)
    [] t.k = "obj" -> v.t = "o" /\ \A i \in DOMAIN v.m : \A j \in DOMAIN t.f :
                                      v.m[i][1] = t.f[j][1] => Typed(v.m[i][2], t.f[j][2], nulls)
WellTyped(fmt, v) == Typed(v, Type[fmt], fmt = "jaeger")

(* Documents whose meaning nobody has fixed: a known member twice in one object; numbers  *)
(* beyond the range of times; for Jaeger also null ids, ids written with escapes, and     *)
(* members that differ from known ones in case only.  The proxy may do anything sensible  *)
(* with them.                                                                             *)
RECURSIVE Clear(_, _, _)
Clear(v, t, jaeger) ==
  CASE t.k = "num" -> v.t # "n" \/ Len(v.s) <= 15 \/ (Len(v.s) = 16 /\ v.s[1] < 57)
    [] t.k = "id" -> ~jaeger \/ v.t = "s"
    [] t.k = "arr" -> v.t # "a" \/ \A i \in DOMAIN v.a : Clear(v.a[i], t.e, jaeger)
    [] t.k = "dict" -> v.t # "o" \/ \A i \in DOMAIN v.m :
                                      /\ Clear(v.m[i][2], t.e, jaeger)
                                      /\ jaeger => Cardinality(Members(v, v.m[i][1])) = 1
    [] t.k = "obj" -> v.t # "o" \/ \A i \in DOMAIN v.m : \A j \in DOMAIN t.f :
                         /\ v.m[i][1] = t.f[j][1] => Cardinality(Members(v, v.m[i][1])) = 1 /\ Clear(v.m[i][2], t.f[j][2], jaeger)
                         /\ jaeger /\ Lower(v.m[i][1]) = Lower(t.f[j][1]) => v.m[i][1] = t.f[j][1]
    [] OTHER -> TRUE
ClearDoc(fmt, v) == Clear(v, Type[fmt], fmt = "jaeger")

-----------------------------------------------------------------------------
(* The spans of a well-typed document.                                       *)

None == [ t |-> "z", s |-> <<>> ]
Member(v, name) ==                 \* the last of that name; null if there is none
  LET s == IF v.t = "o" THEN Members(v, Ascii(name)) ELSE {}
  IN IF s = {} THEN None ELSE v.m[CHOOSE i \in s : \A j \in s : j <= i][2]
StrOf(v, name) == LET x == Member(v, name) IN IF x.t = "s" THEN x.s ELSE <<>>
NumOf(v, name) == LET x == Member(v, name) IN IF x.t = "n" THEN Decimal(x.s) ELSE Zero64
ArrOf(v, name) == LET x == Member(v, name) IN IF x.t = "a" THEN x.a ELSE <<>>
IdBytes(nibbles) == [ i \in 1..8 |-> (16 * nibbles[17 - (2 * i)]) + nibbles[18 - (2 * i)] ]
IdOf(v, name) == LET x == Member(v, name) IN IF x.t = "s" THEN IdBytes(Id!Value(x.s)) ELSE Zero64
Nanos(us) == Times(us, 1000)
Millisecond == Times(Int64(1000000), 1)
Service(v, name) == StrOf(Member(v, name), "serviceName")

\* tags as a set of pairs: later ones replace earlier ones of the same name
TagSet(pairs) == { pairs[i] : i \in { i \in DOMAIN pairs : \A j \in i + 1..Len(pairs) : pairs[j][1] # pairs[i][1] } }
Protocol(what) == << Ascii("protocolVersion"), Ascii(what) >>

First(s) == IF s = <<>> THEN <<>> ELSE s[1]
NonEmpty(s) == SelectSeq(s, LAMBDA x : x # <<>>)

\* v1: the timings are annotations, and so is the service
SpanV1(v) ==
  LET anns == SelectSeq(ArrOf(v, "annotations"), LAMBDA a : ~IsZero(NumOf(a, "timestamp")))
      bins == ArrOf(v, "binaryAnnotations")
      timing(name) == LET s == { i \in DOMAIN anns : StrOf(anns[i], "value") = Ascii(name) }
                      IN IF s = {} THEN Zero64 ELSE Nanos(NumOf(anns[CHOOSE i \in s : \A j \in s : j <= i], "timestamp"))
      cs == timing("cs")
      cr == timing("cr")
      ss == timing("ss")
      sr == timing("sr")
      both(a, b) == ~IsZero(a) /\ ~IsZero(b)
      dur == IF both(cs, cr) THEN Minus(cr, cs) ELSE IF both(sr, ss) THEN Minus(ss, sr) ELSE Nanos(NumOf(v, "duration"))
  IN [ id |-> IdOf(v, "id"), trace |-> IdOf(v, "traceId"), parent |-> IdOf(v, "parentId"), name |-> StrOf(v, "name"),
       svc |-> First(NonEmpty([ i \in DOMAIN anns |-> Service(anns[i], "endpoint") ] \o [ i \in DOMAIN bins |-> Service(bins[i], "endpoint") ])),
       ts |-> IF both(cs, cr) THEN cs ELSE IF both(sr, ss) THEN sr ELSE Nanos(NumOf(v, "timestamp")),
       dur |-> IF IsZero(dur) THEN Millisecond ELSE dur,
       cs |-> cs, cr |-> cr, ss |-> ss, sr |-> sr,
       tags |-> TagSet([ i \in DOMAIN bins |-> << StrOf(bins[i], "key"), Member(bins[i], "value").s >> ] \o << Protocol("json v1") >>) ]

\* v2 and Jaeger: one kind of timing, from start and duration
Timed(id, trace, parent, name, svc, start, duration, kind, tags) ==
  LET ts == Nanos(start)
      dur == IF IsZero(duration) THEN Millisecond ELSE Nanos(duration)
      end == Plus(ts, dur)
      client == Lower(kind) = Ascii("client")
      server == Lower(kind) = Ascii("server")
  IN [ id |-> id, trace |-> trace, parent |-> parent, name |-> name, svc |-> svc, ts |-> ts, dur |-> dur,
       cs |-> IF client THEN ts ELSE Zero64, cr |-> IF client THEN end ELSE Zero64,
       sr |-> IF server THEN ts ELSE Zero64, ss |-> IF server THEN end ELSE Zero64, tags |-> tags ]

SpanV2(v) ==
  LET tags == Member(v, "tags")
      pairs == IF tags.t = "o" THEN [ i \in DOMAIN tags.m |-> << tags.m[i][1], tags.m[i][2].s >> ] ELSE <<>>
  IN Timed(IdOf(v, "id"), IdOf(v, "traceId"), IdOf(v, "parentId"), StrOf(v, "name"), Service(v, "localEndpoint"),
           NumOf(v, "timestamp"), NumOf(v, "duration"), StrOf(v, "kind"), TagSet(pairs \o << Protocol("json v2") >>))

JaegerSpan(v, processes) ==
  LET refs == SelectSeq(ArrOf(v, "references"), LAMBDA r : StrOf(r, "refType") = Ascii("CHILD_OF"))
      texts == SelectSeq(ArrOf(v, "tags"), LAMBDA tag : Member(tag, "value").t = "s")
      is(tag, name) == StrOf(tag, "key") = Ascii(name)
      kinds == SelectSeq(texts, LAMBDA tag : is(tag, "span.kind"))
      kept == SelectSeq(texts, LAMBDA tag : ~is(tag, "span.kind") /\ ~is(tag, "internal.span.format"))
      pairs == [ i \in DOMAIN kept |-> << IF is(kept[i], "component") THEN Ascii("lc") ELSE StrOf(kept[i], "key"), StrOf(kept[i], "value") >> ]
      ps == IF processes.t = "o" THEN Members(processes, StrOf(v, "processID")) ELSE {}
  IN Timed(IdOf(v, "spanID"), IdOf(v, "traceID"),
           IF refs = <<>> THEN IdOf(v, "spanID") ELSE IdOf(refs[Len(refs)], "spanID"),
           StrOf(v, "operationName"), IF ps = {} THEN <<>> ELSE StrOf(processes.m[CHOOSE i \in ps : TRUE][2], "serviceName"),
           NumOf(v, "startTime"), NumOf(v, "duration"), IF kinds = <<>> THEN <<>> ELSE StrOf(kinds[Len(kinds)], "value"),
           TagSet(pairs \o << Protocol("jaeger") >>))

JaegerSpans(v) ==
  LET data == ArrOf(v, "data")
  IN FlattenSeq([ i \in DOMAIN data |-> LET spans == ArrOf(data[i], "spans")
                                        IN [ j \in DOMAIN spans |-> JaegerSpan(spans[j], Member(data[i], "processes")) ] ])

Spans(fmt, v) ==
  CASE fmt = "v1" -> [ i \in DOMAIN v.a |-> SpanV1(v.a[i]) ]
    [] fmt = "v2" -> [ i \in DOMAIN v.a |-> SpanV2(v.a[i]) ]
    [] fmt = "jaeger" -> JaegerSpans(v)

-----------------------------------------------------------------------------
(* What is to become of a body of which the bytes w arrive, until its end or (broken)     *)
(* until an error: "accept", "reject", or either of the two.  If known, the spans are     *)
(* those that an accepted body has to give.                                               *)

Verdict(fmt, w, broken) ==
  LET s == Strict(w)
      l == IF s.p # 0 THEN s ELSE Loose(w)
      reject == l.p = 0 \/ ~WellTyped(fmt, l.v)
      known == ~reject /\ s.p # 0 /\ ClearDoc(fmt, s.v)
  IN [ is |-> IF reject THEN "reject" ELSE IF broken \/ ~known THEN "either" ELSE "accept",
       known |-> known, spans |-> IF known THEN Spans(fmt, s.v) ELSE <<>> ]

\* the recorded outcome: accepted or not, with these spans
Fits(verdict, ok, spans) ==
  IF ok THEN verdict.is # "reject" /\ (verdict.known => spans = verdict.spans) ELSE verdict.is # "accept"
=================================================================================
