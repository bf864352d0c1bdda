------------------------------- MODULE TraceWhole -------------------------------
(* Recorded runs of the assembled program.  A story is a number of uploads, one after  *)
(* the other, that share some traces with nobody else, and all spans of these traces   *)
(* that the agent got and the view showed, in order.  Of a whole run it is recorded    *)
(* which traces were in which submission and in which part of the view.                *)
EXTENDS Whole, Json, IOUtils, TLC
Logs == ndJsonDeserialize(IOEnv.VERIF_LOG)

Tags(x) == { x.tags[i] : i \in DOMAIN x.tags }
Tagged(x) == [ x EXCEPT !.tags = Tags(x) ]

(* A client that went away does not know the answer (status -1). *)
Answers(u, v) ==
  { s \in { 202, 400 } :
      /\ u.status \in { s, -1 }
      /\ IF u.fmt = "v1" /\ ~u.json THEN s = 400
         ELSE v.is # (IF s = 202 THEN "reject" ELSE "accept") }

StoryOk(log) ==
  LET n == Len(log.uploads)
      verdicts == TLCEval([ i \in 1..n |-> Verdict(log.uploads[i].fmt, log.uploads[i].w, log.uploads[i].broken) ])
      answers == { a \in [ 1..n -> { 202, 400 } ] : \A i \in 1..n : a[i] \in Answers(log.uploads[i], verdicts[i]) }
      told == TLCEval([ i \in 1..n |-> [ j \in DOMAIN verdicts[i].spans |-> Report(log, verdicts[i].spans[j]) ] ])
      reports(a) == FlattenSeq([ i \in 1..n |-> IF a[i] = 400 THEN <<>> ELSE told[i] ])
      fits(a, tr) ==
        LET want == TLCEval(Result(reports(a), tr))
            agent == SelectSeq(log.agent, LAMBDA s : s.trace = tr)
            view == SelectSeq(log.view, LAMBDA s : s.trace = tr)
            cut == Len(agent) - Len(view)
        IN /\ Len(agent) = Cardinality(want)
           /\ { Tagged(agent[i]) : i \in DOMAIN agent } = { AgentSpan(tr, s) : s \in want }
           /\ cut = 0 \/ (cut > 0 /\ log.full)          \* the oldest ones are gone from the view
           /\ \A i \in DOMAIN view : /\ view[i].id = agent[i + cut].id
                                     /\ Tagged(view[i]) \in { ViewSpan(tr, s) : s \in want }
  IN /\ \A i \in 1..n : (verdicts[i].is = "reject" \/ verdicts[i].known) \/ ~PrintT(<<"MISFIT", log.id, i>>)
     /\ \E a \in answers : \A tr \in 1..log.traces : fits(a, tr)

Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
(* agent: submissions, each a sequence of lists <<trace, spans>>; views: of each program,     *)
(* runs <<trace, spans>>, and shown: how many spans that are.  Besides the stories there are  *)
(* a number of spans 1..bulk, each a trace, or all in one trace; of these it is recorded      *)
(* which ones the agent got and the views had.                                                *)
RunOk(log) ==
  LET lists == FlattenSeq(log.agent)
      views == FlattenSeq(log.views)
      total == Sum([ i \in DOMAIN lists |-> lists[i][2] ])
      spans(v) == Sum([ i \in DOMAIN v |-> v[i][2] ])
      once(s) == \A i, j \in DOMAIN s : s[i][1] = s[j][1] => i = j
      size(tr) == Sum([ i \in DOMAIN lists |-> IF lists[i][1] = tr THEN lists[i][2] ELSE 0 ])
      ids(q) == { q[i] : i \in DOMAIN q }
      full == \E n \in DOMAIN log.views : log.shown[n] = 2048
  IN /\ log.alien = 0
     /\ Len(log.bulkAgent) = log.bulk /\ ids(log.bulkAgent) = 1..log.bulk
     /\ Cardinality(ids(log.bulkView)) = Len(log.bulkView) /\ ids(log.bulkView) \subseteq 1..log.bulk
     /\ \A i \in DOMAIN lists : lists[i][2] > 0
     \* no trace is torn apart, neither into several submissions nor among several programs
     /\ once(lists) /\ once(views)
     /\ \A n \in DOMAIN log.views : log.shown[n] <= 2048
     /\ Sum(log.shown) = spans(views) + Len(log.bulkView)
     \* a view that is not full has everything
     /\ ~full => Sum(log.shown) = total + log.bulk
     /\ Len(log.views) = 1 => log.shown[1] = IF total + log.bulk < 2048 THEN total + log.bulk ELSE 2048
     /\ \A n \in DOMAIN log.views : \A i \in DOMAIN log.views[n] :
          LET x == log.views[n][i] IN x[2] = size(x[1]) \/ (i = 1 /\ log.shown[n] = 2048 /\ x[2] < size(x[1]))

VARIABLES k, done
vars == <<k, done>>
Init == k \in DOMAIN Logs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ (IF Logs[k].kind = "run" THEN RunOk(Logs[k]) ELSE StoryOk(Logs[k])) \/ PrintT(<<"REJECT", Logs[k].id, 1>>)
Spec == Init /\ [][Next]_vars
==================================================================================
