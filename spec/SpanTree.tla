------------------------------ MODULE SpanTree ------------------------------
(***************************************************************************)
(* The content of one trace: reports of spans are merged by span id, the   *)
(* tree of the trace gets a unique root (or the trace is dropped), and     *)
(* start times are moved into the clock of the root.                       *)
(*                                                                         *)
(* Bound to correct.go: tree.AddSpan, mergeSpansInPlace, tree.Roots,       *)
(* createFakeRoot, correctTreeTimings.                                     *)
(*                                                                         *)
(* Abstractions.  Ids are small naturals, 0 is "unknown" (the harness maps *)
(* them to 64 bit ids, extremes included).  Times are integers in units of *)
(* half a millisecond since 2020-01-01 (the start time below which the     *)
(* proxy calls a time stamp broken), with a second window around the Unix  *)
(* epoch at EPOCH, because "absent" is 0 in the code: EPOCH is "absent".   *)
(* Tags are sets of <<key, value>> pairs.                                  *)
(*                                                                         *)
(* FILL is the id of a representative for many leaf spans that differ only *)
(* in their id (volume scenarios); mult says how many it stands for.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt, SequencesExt

EPOCH == -2000000000     \* encoding of timestamp 0, "absent"
FILL  == -1              \* id of the representative of filler spans
Known(ts) == ts > EPOCH

(* A span: [id, par, name, svc, ts, dur, cs, cr, ss, sr, tags]. *)

Keys(tags) == { p[1] : p \in tags }
\* tags of a, overridden by those of b
OverrideTags(a, b) == { p \in a : p[1] \notin Keys(b) } \cup b

NonEmpty(x, y) == IF x # "" THEN x ELSE y
FirstKnown(x, y) == IF Known(x) THEN x ELSE y

IsServer(sp) == Known(sp.sr) \/ Known(sp.ss)
AllFour(sp) == Known(sp.cs) /\ Known(sp.cr) /\ Known(sp.ss) /\ Known(sp.sr)

(* Merge the report n into the span a that is already known. *)
Merge(a, n) ==
  LET srv == IsServer(n) IN
  [ a EXCEPT
      !.par  = IF a.par = 0 THEN n.par ELSE a.par,
      !.ts   = IF Known(a.ts) THEN a.ts ELSE n.ts,
      !.dur  = IF Known(a.ts) THEN a.dur ELSE n.dur,
      !.name = IF srv THEN NonEmpty(n.name, a.name) ELSE NonEmpty(a.name, n.name),
      !.svc  = IF srv THEN NonEmpty(n.svc, a.svc) ELSE NonEmpty(a.svc, n.svc),
      !.tags = IF srv THEN OverrideTags(a.tags, n.tags) ELSE OverrideTags(n.tags, a.tags),
      !.sr   = FirstKnown(n.sr, a.sr),
      !.ss   = FirstKnown(n.ss, a.ss),
      \* a server report only completes the client times, it does not replace them
      !.cs   = IF srv THEN FirstKnown(a.cs, n.cs) ELSE FirstKnown(n.cs, a.cs),
      !.cr   = IF srv THEN FirstKnown(a.cr, n.cr) ELSE FirstKnown(n.cr, a.cr) ]

(* spans: function from span id to span. *)
AddSpan(spans, n) ==
  IF n.id \in DOMAIN spans
  THEN [ spans EXCEPT ![n.id] = Merge(@, n) ]
  ELSE [ i \in DOMAIN spans \cup {n.id} |-> IF i = n.id THEN n ELSE spans[i] ]

NoSpans == [ i \in {} |-> 0 ]

AddAll(reports) == FoldLeft(AddSpan, NoSpans, reports)

-----------------------------------------------------------------------------
(* Roots, and the synthetic root. *)

IsRootSpan(sp) == sp.par = sp.id
Roots(spans) ==
  { i \in DOMAIN spans : IsRootSpan(spans[i]) \/ spans[i].par \notin DOMAIN spans }

\* number of spans a set of ids stands for
Weight(ids, mult) == Cardinality(ids \ {FILL}) + (IF FILL \in ids THEN mult ELSE 0)

SameParent(spans, ids) == \A i, j \in ids : spans[i].par = spans[j].par

FakeRoot(spans, roots, trace) ==
  LET first == Min({ spans[i].ts : i \in roots })
      last  == Max({ spans[i].ts + spans[i].dur : i \in roots })
      p     == spans[CHOOSE i \in roots : TRUE].par
  IN [ id |-> p, par |-> trace, name |-> "fake-root", svc |-> "fake-root",
       ts |-> first, dur |-> last - first,
       cs |-> EPOCH, cr |-> EPOCH, ss |-> EPOCH, sr |-> EPOCH, tags |-> {} ]

\* The tree with a synthetic root if one is called for.
WithRoot(spans, mult, trace) ==
  LET roots == Roots(spans) IN
  IF Weight(roots, mult) > 1 /\ SameParent(spans, roots)
  THEN AddSpan(spans, FakeRoot(spans, roots, trace))
  ELSE spans

\* Exactly one root: the trace can be handed on.
Rooted(spans, mult) == Weight(Roots(spans), mult) = 1

-----------------------------------------------------------------------------
(* Clock skew correction. *)

ChildrenOf(spans, id) ==
  { i \in DOMAIN spans : spans[i].par = id /\ ~IsRootSpan(spans[i]) }

\* (cr+cs)/2 - (ss+sr)/2: by how much the server's clock is behind the client's.
Skew(sp) == ((sp.cr + sp.cs) \div 2) - ((sp.ss + sp.sr) \div 2)

Broken(ts) == ts < 0      \* before 2020

\* The corrected spans of the subtree below (and including) id, as a set.
RECURSIVE Corrected(_, _, _, _)
Corrected(spans, id, parentTs, shift) ==
  LET sp    == spans[id]
      four  == AllFour(sp)
      ts0   == IF four THEN sp.cs + shift ELSE sp.ts + shift
      dur   == IF four THEN sp.cr - sp.cs ELSE sp.dur
      ts    == IF parentTs # <<>> /\ Broken(ts0) THEN parentTs[1] ELSE ts0
      below == IF four THEN shift + Skew(sp) ELSE shift
  IN { [ sp EXCEPT !.ts = ts, !.dur = dur ] }
     \cup UNION { Corrected(spans, c, <<ts>>, below) : c \in ChildrenOf(spans, id) }

\* All spans as handed on.  Spans not below the root (they are on a cycle of
\* parents) are handed on as they are.
CorrectedAll(spans) ==
  LET root == CHOOSE i \in Roots(spans) : TRUE
      done == Corrected(spans, root, <<>>, 0)
      ids  == { sp.id : sp \in done }
  IN done \cup { spans[i] : i \in DOMAIN spans \ ids }

(* What becomes of a trace: [ok |-> handed on?, spans |-> set of spans].   *)
Outcome(spans, mult, trace) ==
  LET full == WithRoot(spans, mult, trace) IN
  IF Rooted(full, mult)
  THEN [ ok |-> TRUE, spans |-> CorrectedAll(full) ]
  ELSE [ ok |-> FALSE, spans |-> {} ]
=============================================================================
