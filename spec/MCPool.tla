--------------------------------- MODULE MCPool ---------------------------------
(***************************************************************************)
(* The reuse of memory between requests (codec/json-v1.go).  A request     *)
(* takes a slice of spans from the pool (or a new one), decodes its spans  *)
(* into it one member at a time, and gives it back, whether it succeeded   *)
(* or not; only a successful one has copied its spans out before.  A span  *)
(* has a field and a list of annotations of two fields each; lists keep    *)
(* their memory.  Members may be absent, and decoding may fail anywhere.   *)
(* A request's spans only hold what the request itself has written.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers, Requests, MaxSpans, MaxAnns, Slices

VARIABLES mem,    \* slice -> sequence of spans [f, anns (all cells there are), len]
          pool,   \* slices in the pool
          pc,     \* worker -> [r: request (0: none), s: slice, n: spans decoded]
          res,    \* request -> the spans returned
          reqs    \* requests so far
vars == << mem, pool, pc, res, reqs >>

Blank == << 0, 0 >>
NewSpan == [ f |-> 0, anns |-> <<>>, len |-> 0 ]
Idle == [ r |-> 0, s |-> 0, n |-> 0 ]
Init ==
  /\ mem = [ s \in 1..Slices |-> <<>> ] /\ pool = 1..Slices
  /\ pc = [ w \in 1..Workers |-> Idle ] /\ res = <<>> /\ reqs = 0

Begin(w) ==
  /\ pc[w].r = 0 /\ reqs < Requests
  /\ \E s \in pool : pool' = pool \ {s} /\ pc' = [ pc EXCEPT ![w] = [ r |-> reqs + 1, s |-> s, n |-> 0 ] ]
  /\ reqs' = reqs + 1 /\ UNCHANGED << mem, res >>

\* the next span: reset first, up to the capacity of its lists
Reset(span) == [ f |-> 0, anns |-> [ i \in DOMAIN span.anns |-> Blank ], len |-> 0 ]
NextSpan(w) ==
  /\ pc[w].r # 0 /\ pc[w].n < MaxSpans
  /\ LET s == pc[w].s
         n == pc[w].n + 1
     IN mem' = [ mem EXCEPT ![s] = IF n <= Len(@) THEN [ @ EXCEPT ![n] = Reset(@) ] ELSE Append(@, NewSpan) ]
  /\ pc' = [ pc EXCEPT ![w].n = @ + 1 ] /\ UNCHANGED << pool, res, reqs >>
Field(w) ==
  /\ pc[w].r # 0 /\ pc[w].n > 0 /\ mem[pc[w].s][pc[w].n].f = 0
  /\ mem' = [ mem EXCEPT ![pc[w].s][pc[w].n].f = pc[w].r ] /\ UNCHANGED << pool, pc, res, reqs >>
\* an annotation with any of its members; the list grows within its memory if it can
Annotation(w) ==
  /\ pc[w].r # 0 /\ pc[w].n > 0
  /\ LET s == pc[w].s
         n == pc[w].n
         span == mem[s][n]
         k == span.len + 1
     IN /\ k <= MaxAnns
        /\ \E has \in SUBSET { 1, 2 } :
             LET old == IF k <= Len(span.anns) THEN span.anns[k] ELSE Blank
                 new == [ i \in { 1, 2 } |-> IF i \in has THEN pc[w].r ELSE old[i] ]
             IN mem' = [ mem EXCEPT ![s][n] = [ @ EXCEPT !.len = k,
                           !.anns = IF k <= Len(@) THEN [ @ EXCEPT ![k] = new ] ELSE Append(@, new) ] ]
  /\ UNCHANGED << pool, pc, res, reqs >>
Finish(w, ok) ==
  /\ pc[w].r # 0
  /\ res' = IF ok THEN Append(res, << pc[w].r, [ i \in 1..pc[w].n |-> LET x == mem[pc[w].s][i]
                                                                      IN << x.f, SubSeq(x.anns, 1, x.len) >> ] >>) ELSE res
  /\ pool' = pool \cup { pc[w].s } /\ pc' = [ pc EXCEPT ![w] = Idle ] /\ UNCHANGED << mem, reqs >>
Next == \E w \in 1..Workers : Begin(w) \/ NextSpan(w) \/ Field(w) \/ Annotation(w) \/ \E ok \in BOOLEAN : Finish(w, ok)
Spec == Init /\ [][Next]_vars

Own == \A i \in DOMAIN res : LET r == res[i][1]
                                 spans == res[i][2]
                             IN \A j \in DOMAIN spans : /\ spans[j][1] \in { 0, r }
                                                        /\ \A a \in DOMAIN spans[j][2] : \A x \in { 1, 2 } : spans[j][2][a][x] \in { 0, r }
Apart == \A v, w \in 1..Workers : v # w /\ pc[v].r # 0 /\ pc[w].r # 0 => pc[v].s # pc[w].s
==================================================================================
