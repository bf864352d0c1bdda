---------------------------------- MODULE Ring ----------------------------------
(***************************************************************************)
(* The recent-spans buffer (buffer.go).  Spans are numbered in the order   *)
(* in which they are given, 1, 2, 3, ...; a state is the number of spans   *)
(* given after each trace.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* what is shown after n spans: <<first, last>>, nothing if first > last
Shown(cap, n) == << IF n > cap THEN n - cap + 1 ELSE 1, n >>
=================================================================================
