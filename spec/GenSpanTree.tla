------------------------------ MODULE GenSpanTree ------------------------------
(***************************************************************************)
(* Cases for SpanTree: sequences of reports of one trace, enumerated by    *)
(* TLC and written as ndjson for the harness.  Which is chosen by Kind.    *)
(***************************************************************************)
EXTENDS SpanTree, Json, IOUtils, TLC, Randomization

CONSTANTS Kind, Deep

T == 9     \* the id of the trace

Span(id, par, name, svc, ts, dur, cs, cr, ss, sr, tags) ==
  [ id |-> id, par |-> par, name |-> name, svc |-> svc, ts |-> ts, dur |-> dur,
    cs |-> cs, cr |-> cr, ss |-> ss, sr |-> sr, tags |-> tags ]

-----------------------------------------------------------------------------
(* Reports of one span.  n numbers the report; its values tell where they   *)
(* come from.                                                               *)
Timing == {"cs", "cr", "ss", "sr"}
At(set, t, v) == IF t \in set THEN v ELSE EPOCH

Report(n, set, par, name, svc, hasTs, tags) ==
  Span(1, par, name, svc, IF hasTs THEN 10000 * n ELSE EPOCH, <<10, 4, 12, 2, 6>>[n],
       At(set, "cs", 1000 * n), At(set, "cr", 1000 * n + 500), At(set, "ss", 1000 * n + 400),
       At(set, "sr", 1000 * n + 100), tags)

Name(n, has) == IF has THEN <<"na", "nb", "nc", "nd", "ne">>[n] ELSE ""
Svc(n, has) == IF has THEN <<"sa", "sb", "sc", "sd", "se">>[n] ELSE ""
Kinds == { {}, {"cs", "cr"}, {"ss", "sr"}, {"sr"}, {"ss", "cr"}, {"cs", "sr"} }
Four == { {}, {"cs", "cr"}, {"ss", "sr"}, Timing }

Plain(n, set) == Report(n, set, 0, Name(n, TRUE), Svc(n, TRUE), TRUE, << <<"k", ToString(n)>>, <<"own" \o ToString(n), "x">> >>)

TagSets(n) == { <<>>, << <<"k", ToString(n)>> >>, << <<"k", "">> >>, << <<"l", ToString(n)>>, <<"k", ToString(n)>> >>,
                << <<"m", "same">> >> }

MergeCases ==
     { << Plain(1, a), Plain(2, b) >> : a, b \in SUBSET Timing }
  \cup { << Report(1, k1, p1, Name(1, n1), Svc(1, s1), TRUE, <<>>),
            Report(2, k2, p2, Name(2, n2), Svc(2, s2), TRUE, <<>>) >> :
          k1, k2 \in {{}, {"cs"}, {"sr"}, {"ss"}}, p1, p2 \in {0, 5, 6}, n1, n2, s1, s2 \in BOOLEAN }
  \* the parent may be the span itself, or the trace
  \cup { << Report(1, k1, p1, "n", "s", TRUE, <<>>), Report(2, k2, p2, "n", "s", TRUE, <<>>), Report(3, {}, p3, "n", "s", TRUE, <<>>) >> :
          k1, k2 \in {{"cs"}, {"sr"}}, p1, p2, p3 \in {0, 5, 1, T} }
  \cup { << Report(1, k1, 0, "n", "s", t1, <<>>), Report(2, k2, 0, "n", "s", t2, <<>>), Report(3, k3, 0, "n", "s", TRUE, <<>>) >> :
          k1, k2, k3 \in {{}, {"cs", "cr"}, {"ss", "sr"}}, t1, t2 \in BOOLEAN }
  \cup { << Report(1, k1, 0, "n", "s", TRUE, g1), Report(2, k2, 0, "n", "s", TRUE, g2) >> :
          k1, k2 \in {{}, {"cs"}, {"sr"}, {"ss"}}, g1 \in TagSets(1), g2 \in TagSets(2) }
  \cup { << Plain(1, k1), Plain(2, k2), Plain(3, k3) >> : k1, k2, k3 \in Kinds }

\* five reports, everything at random
RandomReport(n) ==
  Report(n, RandomElement(SUBSET Timing), RandomElement({0, 0, 5, 6, 1, T}), Name(n, RandomElement(BOOLEAN)),
         Svc(n, RandomElement(BOOLEAN)), RandomElement(BOOLEAN), RandomElement(TagSets(n)))
RandomMerges(count) ==
  { [ n \in 1..(2 + (i % 4)) |-> RandomReport(n) ] : i \in 1..count }

-----------------------------------------------------------------------------
(* Structures: every assignment of parents to a few spans.                  *)
Starts == << <<50, 20, 80, 30, 60, 10>>, <<10, 90, 40, 70, 20, 44>> >>
Lengths == << <<100, 10, 4, 200, 30, 2>>, <<20, 4, 200, 60, 400, 8>> >>
Plain2(v, n, id, par) ==
  Span(id, par, "n", "s", Starts[v][n], Lengths[v][n], EPOCH, EPOCH, EPOCH, EPOCH, <<>>)

\* ids: sequence of span ids; pars: possible parents
Structures(ids, pars) ==
  { [ n \in 1..Len(ids) |-> Plain2(1 + ((p[1] + Len(ids)) % 2), n, ids[n], p[n]) ] : p \in [ 1..Len(ids) -> pars ] }

RandomStructures(ids, pars, count) ==
  { [ n \in 1..Len(ids) |-> Plain2(1 + (i % 2), n, ids[n], RandomElement(pars)) ] : i \in 1..count }

RootCases ==
     Structures(<<1>>, {1, T, 7, 0})
  \cup Structures(<<T>>, {T, 7, 0})
  \cup Structures(<<1, 2>>, {1, 2, T, 7, 8, 0})
  \cup Structures(<<T, 2>>, {T, 2, 7, 8, 0})
  \cup Structures(<<1, 2, 3>>, {1, 2, 3, T, 7, 8, 0})
  \cup Structures(<<T, 2, 3>>, {T, 2, 3, 7, 8, 0})
  \cup Structures(<<1, 2, 3, 4>>, IF Deep THEN {1, 2, 3, 4, T, 7, 8, 0} ELSE {1, 2, 4, T, 7})
  \cup Structures(<<T, 2, 3, 4>>, IF Deep THEN {T, 2, 3, 4, 7, 8, 0} ELSE {T, 2, 3, 7})
  \cup RandomStructures(<<1, 2, 3, 4, 5>>, {1, 2, 3, 4, 7, 7, 7, T}, IF Deep THEN 20000 ELSE 1000)
  \cup RandomStructures(<<1, 2, 3, 4, 5, 6>>, {1, 2, 7, 7, 7, 7}, IF Deep THEN 20000 ELSE 1000)

-----------------------------------------------------------------------------
(* Timings along small trees.                                               *)
Shapes2 == { <<0, 1>>, <<1, 1>> }
Shapes3 == { <<0, 1, 1>>, <<0, 1, 2>>, <<1, 1, 2>>, <<7, 1, 2>> }
Shapes4 == { <<0, 1, 2, 3>>, <<0, 1, 2, 2>>, <<0, 1, 1, 2>>, <<1, 1, 2, 3>>, <<0, 1, 1, 1>> }

\* the clock of a span, number n in the tree: [ts, dur, cs, cr, ss, sr]
Clock(n, k) ==
  LET b == 1000 * n
      f(cs, cr, sr, ss) == << b + 14, 77, cs, cr, ss, sr >>
  IN CASE k = "none"   -> << b, 40, EPOCH, EPOCH, EPOCH, EPOCH >>
       [] k = "ahead"  -> f(b, b + 200, b + 550, b + 650)         \* the server's clock is ahead
       [] k = "behind" -> f(b, b + 200, b - 446, b - 340)
       [] k = "far"    -> f(b, b + 200, b + 9000, b + 9100)
       [] k = "early"  -> f(b - 8000, b - 7800, b, b + 100)       \* before 2020
       [] k = "longer" -> f(b, b + 200, b - 400, b + 900)         \* the server took longer than the client
       [] k = "hours"  -> f(b, b + 200, b + 16000000, b + 16000400)
       [] k = "since"  -> f(b, b + 4000200, b - 12000000, b - 11999400)
       [] k = "inverse"-> f(b, b + 400, b + 900, b + 500)         \* sent before it was received
       [] k = "reverse"-> f(b + 400, b, b + 900, b + 1300)
       [] k = "same"   -> f(b, b, b, b)
       [] k = "client" -> << b + 6, 42, b, b + 100, EPOCH, EPOCH >>
       [] k = "server" -> << b + 8, 44, EPOCH, EPOCH, b + 90, b + 10 >>
       [] k = "nocs"   -> << b + 2, 46, EPOCH, b + 100, b + 990, b + 910 >>
       [] k = "nocr"   -> << b + 2, 46, b, EPOCH, b + 990, b + 910 >>
       [] k = "noss"   -> << b + 4, 48, b, b + 100, EPOCH, b + 910 >>
       [] k = "nosr"   -> << b + 4, 48, b, b + 100, b + 990, EPOCH >>
       [] k = "broken" -> << -5, 50, EPOCH, EPOCH, EPOCH, EPOCH >>
       [] k = "edge"   -> << 0, 52, EPOCH, EPOCH, EPOCH, EPOCH >>
       [] k = "absent" -> << EPOCH, 54, EPOCH, EPOCH, EPOCH, EPOCH >>
       [] k = "longago"-> << EPOCH + 40000, 56, EPOCH + 10, EPOCH + 40, EPOCH, EPOCH >>

AllClocks == {"none", "longer", "hours", "since", "inverse", "reverse", "ahead", "behind", "far", "early", "same", "client", "server", "nocs", "nocr", "noss", "nosr",
              "broken", "edge", "absent", "longago"}
SomeClocks == {"none", "longer", "ahead", "behind", "far", "early", "nosr", "broken", "absent"}
FewClocks == {"none", "hours", "longer", "ahead", "behind", "far", "broken"}

Tree(shape, ks) ==
  [ n \in 1..Len(shape) |->
      LET c == Clock(n, ks[n]) IN
      Span(n, shape[n], "n", "s", c[1], c[2], c[3], c[4], c[5], c[6], << <<"t", "u">> >>) ]

SkewCases ==
     { Tree(<<0>>, <<k>>) : k \in AllClocks }
  \cup { Tree(sh, <<k1, k2>>) : sh \in Shapes2, k1, k2 \in AllClocks }
  \cup { Tree(sh, <<k1, k2, k3>>) : sh \in Shapes3, k1 \in SomeClocks, k2, k3 \in (IF Deep THEN AllClocks ELSE SomeClocks) }
  \cup { Tree(sh, <<k1, k2, k3, k4>>) : sh \in Shapes4, k1, k2, k3, k4 \in (IF Deep THEN SomeClocks ELSE {"none", "ahead", "far"}) }
  \* a synthetic root above them
  \cup { Tree(<<7, 7>>, <<k1, k2>>) : k1, k2 \in FewClocks }
  \cup { Tree(<<7, 7, 2>>, <<k1, k2, k3>>) : k1, k2, k3 \in FewClocks }
  \* long chains
  \cup { Tree([ n \in 1..8 |-> n - 1 ], [ n \in 1..8 |-> RandomElement(FewClocks) ]) : i \in 1..(IF Deep THEN 500 ELSE 50) }

Cases == CASE Kind = "merge" -> MergeCases \cup RandomMerges(IF Deep THEN 20000 ELSE 1500)
           [] Kind = "roots" -> RootCases
           [] Kind = "skew"  -> SkewCases

VARIABLE done
Init == /\ LET seq == SetToSeq(Cases) IN
             ndJsonSerialize(IOEnv.VERIF_GEN,
               [ n \in DOMAIN seq |-> [ id |-> Kind \o "-" \o ToString(n), reports |-> seq[n] ] ])
        /\ done = TRUE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
