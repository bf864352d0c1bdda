--------------------------------- MODULE MCLru ---------------------------------
(* The doubly linked list of cache/lru.go, pointer by pointer, holds what Lru     *)
(* says, for every sequence of operations.  Node i is the entry of string i; 0    *)
(* is nil.                                                                        *)
EXTENDS Lru, TLC, FiniteSets

CONSTANTS Keys, Over, Limit

Lengths(i) == i

VARIABLES prev, next, head, tail, vals, size, count, order
vars == <<prev, next, head, tail, vals, size, count, order>>

Init == /\ prev = [ i \in 1..Keys |-> 0 ] /\ next = [ i \in 1..Keys |-> 0 ] /\ head = 0 /\ tail = 0
        /\ vals = {} /\ size = 0 /\ count = 0 /\ order = Start

\* the list as a record, so that operations can follow each other
L == [ p |-> prev, n |-> next, h |-> head, t |-> tail, v |-> vals, s |-> size, c |-> count ]

PushHead(l, e) ==
  IF l.h = e THEN l ELSE
  LET a == IF l.t = e THEN [ l EXCEPT !.t = l.p[e] ] ELSE l
      b == IF a.p[e] # 0 THEN [ a EXCEPT !.n[a.p[e]] = a.n[e] ] ELSE a
      c == IF b.n[e] # 0 THEN [ b EXCEPT !.p[b.n[e]] = b.p[e] ] ELSE b
      d == IF c.h # 0 THEN [ c EXCEPT !.p[c.h] = e ] ELSE c
      f == [ d EXCEPT !.p[e] = 0, !.n[e] = d.h, !.h = e ]
  IN IF f.t = 0 THEN [ f EXCEPT !.t = e ] ELSE f

DropTail(l) ==
  LET e == l.t
      a == IF l.p[e] # 0 THEN [ l EXCEPT !.n[l.p[e]] = 0, !.t = l.p[e] ] ELSE l
  IN IF a.h = e THEN [ a EXCEPT !.h = 0, !.t = 0 ] ELSE a

RECURSIVE Ensure(_)
Ensure(l) ==
  IF l.s + l.c * Over >= Limit
  THEN LET e == l.t
           a == DropTail(l)
       IN Ensure([ a EXCEPT !.v = @ \ {e}, !.c = @ - 1, !.s = @ - Lengths(e) ])
  ELSE l

Fresh(l, i) == [ l EXCEPT !.p[i] = 0, !.n[i] = 0 ]      \* a new entry

Assign(l) == /\ prev' = l.p /\ next' = l.n /\ head' = l.h /\ tail' = l.t /\ vals' = l.v /\ size' = l.s /\ count' = l.c

DoSet(i) ==
  /\ IF i \in vals THEN Assign(PushHead(L, i))
     ELSE LET a == PushHead(Fresh(Ensure(L), i), i)
          IN Assign([ a EXCEPT !.v = @ \cup {i}, !.c = @ + 1, !.s = @ + Lengths(i) ])
  /\ order' = Set(order, i, Over, Limit)
DoGet(i) ==
  /\ IF i \in vals THEN Assign(PushHead(L, i)) ELSE Assign(L)
  /\ order' = Get(order, i)
Next == \E i \in 1..Keys : DoSet(i) \/ DoGet(i)
Spec == Init /\ [][Next]_vars

RECURSIVE Walk(_)
Walk(i) == IF i = 0 THEN <<>> ELSE << i >> \o Walk(next[i])
RECURSIVE Back(_)
Back(i) == IF i = 0 THEN <<>> ELSE Back(prev[i]) \o << i >>
SameOrder == Walk(head) = order /\ Back(tail) = order
Content == /\ vals = { order[n] : n \in DOMAIN order }
           /\ count = Len(order) /\ size + count * Over = Size(order, Over)
Bounded == order # <<>> => \E n \in DOMAIN order : Size(order, Over) - Len8(order[n]) - Over < Limit
================================================================================
