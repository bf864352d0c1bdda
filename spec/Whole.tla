--------------------------------- MODULE Whole ---------------------------------
(***************************************************************************)
(* The assembled program (main.go): uploads in, what the trace agent and   *)
(* the recent-spans view get out.  This composes the specifications of the *)
(* parts: Translate (documents to spans), SpanTree (merging, roots, clock  *)
(* skew) and Datadog (what a span looks like to the agent), with the       *)
(* converter of the harness in between.                                    *)
(*                                                                         *)
(* Values.  Translate has ids, times and strings as bytes; SpanTree has    *)
(* small ids, times in units of half a millisecond and strings.  A log has *)
(* tables of the ids and strings that occur in it.                         *)
(***************************************************************************)
EXTENDS Translate
Tree == INSTANCE SpanTree
Dd == INSTANCE Datadog

\* 2020-01-01 in nanoseconds
Origin == Times(Times(Times(Int64(1577836800), 1000), 1000), 1000)

Flip(b) == [ i \in 1..8 |-> b[9 - i] ]
\* division of a non-negative number by 500000, or an impossible value
RECURSIVE Div8(_, _, _, _)
Div8(b, i, quot, rem) ==
  IF i > 8 THEN IF rem = 0 /\ \A j \in 1..4 : quot[j] = 0 /\ quot[5] < 100
                THEN (((quot[5] * 256) + quot[6]) * 65536) + (quot[7] * 256) + quot[8] ELSE 2000000001
  ELSE LET x == (rem * 256) + b[i] IN Div8(b, i + 1, Append(quot, x \div 500000), x % 500000)
Units(b) == IF Negative(b) THEN - Div8(Flip(Neg(b)), 1, <<>>, 0) ELSE Div8(Flip(b), 1, <<>>, 0)

AbsTs(b) == IF IsZero(b) THEN Tree!EPOCH ELSE Units(Minus(b, Origin))
Nanoseconds(u) == IF u >= 0 THEN Times(Times(Int64(u), 1000), 500) ELSE Neg(Times(Times(Int64(-u), 1000), 500))
ConcTs(u) == IF u < -1000000000 THEN Nanoseconds(u - Tree!EPOCH) ELSE Plus(Origin, Nanoseconds(u))

Id0(ids, b) == IF IsZero(b) THEN 0 ELSE CHOOSE i \in DOMAIN ids : ids[i] = b
StrAt(strs, b) == IF b = <<>> THEN "" ELSE strs[CHOOSE i \in DOMAIN strs : strs[i].b = b].s

Report(t, sp) ==
  [ tr |-> Id0(t.ids, sp.trace),
    sp |-> [ id |-> Id0(t.ids, sp.id), par |-> Id0(t.ids, sp.parent), name |-> StrAt(t.strs, sp.name), svc |-> StrAt(t.strs, sp.svc),
             ts |-> AbsTs(sp.ts), dur |-> Units(sp.dur), cs |-> AbsTs(sp.cs), cr |-> AbsTs(sp.cr), ss |-> AbsTs(sp.ss), sr |-> AbsTs(sp.sr),
             tags |-> { << StrAt(t.strs, p[1]), StrAt(t.strs, p[2]) >> : p \in sp.tags } ] ]

-----------------------------------------------------------------------------
(* The converter of the harness goes by the name of the span.  *)
Dropped == { "drop", "drop2", "zeroid", "zerotrace" }
Converted(sp) == IF sp.name = "rename" THEN [ sp EXCEPT !.name = "renamed", !.tags = { <<"conv", "yes">> } ]
                 ELSE IF sp.name = "mark" THEN [ sp EXCEPT !.tags = { p \in @ : p[1] # "conv" } \cup { <<"conv", "too">> } ]
                 ELSE sp

\* what comes out for a trace of which these reports are accepted, in order
Result(reports, tr) ==
  LET mine == SelectSeq(reports, LAMBDA r : r.tr = tr /\ r.sp.id # 0)
      o == Tree!Outcome(Tree!AddAll([ i \in DOMAIN mine |-> mine[i].sp ]), 0, tr)
  IN IF mine = <<>> \/ ~o.ok THEN {} ELSE { Converted(s) : s \in { s \in o.spans : s.name \notin Dropped /\ s.id # 0 } }

AgentSpan(tr, sp) ==
  LET s == Dd!Convert([ id |-> sp.id, trace |-> tr, parent |-> sp.par, name |-> sp.name, service |-> sp.svc,
                        start |-> ConcTs(sp.ts), dur |-> << sp.dur, 0 >>, tags |-> sp.tags ])
  IN [ s EXCEPT !.dur = IF sp.dur > 0 THEN Nanoseconds(sp.dur) ELSE Int64(1000) ]
ViewSpan(tr, sp) ==
  [ id |-> sp.id, trace |-> tr, parent |-> sp.par, name |-> sp.name, svc |-> sp.svc, ts |-> ConcTs(sp.ts), dur |-> Nanoseconds(sp.dur),
    cs |-> ConcTs(sp.cs), cr |-> ConcTs(sp.cr), ss |-> ConcTs(sp.ss), sr |-> ConcTs(sp.sr), tags |-> sp.tags ]
=================================================================================
