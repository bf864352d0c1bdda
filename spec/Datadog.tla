-------------------------------- MODULE Datadog --------------------------------
(***************************************************************************)
(* What a span looks like to the trace agent (datadog/converter.go).  Ids  *)
(* and start are texts, a duration is <<seconds, nanoseconds>> with the    *)
(* nanoseconds from 0 to 999999999, tags are a set of <<key, value>>.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

AtLeast1us(d) == IF d[1] < 0 \/ (d[1] = 0 /\ d[2] < 1000) THEN <<0, 1000>> ELSE d

IsError(tags) == \E t \in tags : t[1] = "error" /\ t[2] \notin {"false", "0"}

Convert(sp) ==
  [ id |-> sp.id, trace |-> sp.trace, parent |-> sp.parent,
    name |-> sp.service, service |-> sp.service,
    resource |-> IF sp.name = "" THEN "(resource empty)" ELSE sp.name,
    start |-> sp.start, dur |-> AtLeast1us(sp.dur), tags |-> sp.tags,
    error |-> IF IsError(sp.tags) THEN 1 ELSE 0 ]
================================================================================
