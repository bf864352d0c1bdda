---------------------------------- MODULE Lru ----------------------------------
(***************************************************************************)
(* The string cache (cache/lru.go).  The content is a sequence of strings, *)
(* most recently used first.  Strings are numbers; Len gives their length. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANT Len8(_)      \* the length of string number i

Start == <<>>

Size(order, over) == FoldLeft(LAMBDA acc, i : acc + Len8(i) + over, 0, order)

Has(order, i) == \E n \in DOMAIN order : order[n] = i

ToFront(order, i) == << i >> \o SelectSeq(order, LAMBDA x : x # i)

RECURSIVE Evict(_, _, _)
Evict(order, over, max) ==
  IF Size(order, over) >= max /\ order # <<>> THEN Evict(SubSeq(order, 1, Len(order) - 1), over, max) ELSE order

Set(order, i, over, max) ==
  IF Has(order, i) THEN ToFront(order, i) ELSE << i >> \o Evict(order, over, max)

Get(order, i) == IF Has(order, i) THEN ToFront(order, i) ELSE order
================================================================================
