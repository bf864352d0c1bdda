--------------------------------- MODULE MCGroup ---------------------------------
(* The members of a group as they are built: a loop around sessions, a loop over the *)
(* messages of each claim, marks, and commits of the marks at any time and at the    *)
(* end of a session; the coordinator shares out the partitions once all members it   *)
(* knows have ended their sessions.  Members crash, stop, and are expelled without   *)
(* noticing.  All of this are behaviours of Group; nothing that can be decoded is    *)
(* skipped, and in the end everything is handed over.                                *)
EXTENDS Group

CONSTANTS Members, NParts, Msgs, Budget   \* Budget: crashes, expulsions, stops

VARIABLES s, own, part, zombie, gone, shift, pc, at, mark, left, plan
vars == << s, own, part, zombie, gone, shift, pc, at, mark, left, plan >>
\* own: partition -> member or 0; part: member -> partitions it consumes; shift: a rebalance is due
\* pc, at, mark: member -> partition -> where its loop is, the message in hand, what it marked
\* plan: partition -> the messages that will be published

All == 1..NParts
each(v) == [ m \in Members |-> [ p \in All |-> v ] ]
Init ==
  /\ \E g \in [ 1..Msgs -> BOOLEAN ] : plan = [ p \in All |-> g ]
  /\ s = [ Start(NParts) EXCEPT !.alive = Members ]
  /\ own = [ p \in All |-> 0 ] /\ part = [ m \in Members |-> {} ] /\ zombie = {} /\ gone = {} /\ shift = TRUE
  /\ pc = each("out") /\ at = each(0) /\ mark = each(0) /\ left = Budget

Publish(p) ==
  /\ Len(s.good[p]) < Msgs /\ s' \in StepPublish(s, p, << plan[p][Len(s.good[p]) + 1] >>)
  /\ UNCHANGED << own, part, zombie, gone, shift, pc, at, mark, left, plan >>

Known == Members \ (zombie \cup gone)
\* the partitions are shared out
Assign ==
  /\ shift /\ Known # {} /\ \A m \in Known : part[m] = {}
  /\ own' \in [ All -> Known ] /\ shift' = FALSE
  /\ UNCHANGED << s, part, zombie, gone, pc, at, mark, left, plan >>
Claim(m, p) ==
  /\ own[p] = m /\ ~shift /\ m \in Known /\ p \notin part[m]
  /\ s' \in StepClaim(s, m, p)
  /\ part' = [ part EXCEPT ![m] = @ \cup {p} ] /\ pc' = [ pc EXCEPT ![m][p] = "take" ]
  /\ at' = [ at EXCEPT ![m][p] = s.comm[p] ] /\ mark' = [ mark EXCEPT ![m][p] = s.comm[p] ]
  /\ UNCHANGED << own, zombie, gone, shift, left, plan >>

Step(m, p, from, to) == p \in part[m] /\ m \notin gone /\ pc[m][p] = from /\ pc' = [ pc EXCEPT ![m][p] = to ]
Take(m, p) ==
  /\ at[m][p] < Len(s.good[p]) /\ at' = [ at EXCEPT ![m][p] = @ + 1 ]
  /\ Step(m, p, "take", IF s.good[p][at[m][p] + 1] THEN "call" ELSE "take")
  /\ UNCHANGED << s, own, part, zombie, gone, shift, mark, left, plan >>
Call(m, p) == /\ Step(m, p, "call", "return") /\ s' \in StepCall(s, m, p, at[m][p])
              /\ UNCHANGED << own, part, zombie, gone, shift, at, mark, left, plan >>
Return(m, p) == /\ Step(m, p, "return", "mark") /\ s' \in StepReturn(s, m, p, at[m][p])
                /\ UNCHANGED << own, part, zombie, gone, shift, at, mark, left, plan >>
Mark(m, p) == /\ Step(m, p, "mark", "take") /\ mark' = [ mark EXCEPT ![m][p] = at[m][p] ]
              /\ UNCHANGED << s, own, part, zombie, gone, shift, at, left, plan >>
Commit(m, p) ==
  /\ p \in part[m] /\ m \in Known /\ own[p] = m /\ mark[m][p] > s.comm[p]
  /\ s' \in StepCommit(s, m, p, mark[m][p])
  /\ UNCHANGED << own, part, zombie, gone, shift, pc, at, mark, left, plan >>
\* the session ends: every loop finishes its message, and what is marked gets committed
Over(m) == shift \/ m \in zombie
Give(m, p) ==
  /\ Over(m) /\ Step(m, p, "take", "out") /\ (m \in Known => mark[m][p] <= s.comm[p])
  /\ part' = [ part EXCEPT ![m] = @ \ {p} ]
  /\ UNCHANGED << s, own, zombie, gone, shift, at, mark, left, plan >>
\* an expelled member has noticed, and joins again
Again(m) == /\ m \in zombie \ gone /\ part[m] = {} /\ zombie' = zombie \ {m} /\ shift' = TRUE
            /\ UNCHANGED << s, own, part, gone, pc, at, mark, left, plan >>

Expel(m) == /\ left > 0 /\ m \in Known /\ zombie' = zombie \cup {m} /\ s' \in StepTrouble(s, m) /\ shift' = TRUE /\ left' = left - 1
            /\ UNCHANGED << own, part, gone, pc, at, mark, plan >>
Crash(m) == /\ left > 0 /\ m \notin gone /\ gone' = gone \cup {m} /\ s' \in StepTrouble(s, m) /\ shift' = TRUE /\ left' = left - 1
            /\ part' = [ part EXCEPT ![m] = {} ] /\ UNCHANGED << own, zombie, pc, at, mark, plan >>
Shift == left > 0 /\ ~shift /\ shift' = TRUE /\ left' = left - 1 /\ UNCHANGED << s, own, part, zombie, gone, pc, at, mark, plan >>
Stop(m) == /\ left > 0 /\ m \in Known /\ shift /\ part[m] = {} /\ gone' = gone \cup {m} /\ s' \in StepStopped(s, m) /\ left' = left - 1
           /\ UNCHANGED << own, part, zombie, shift, pc, at, mark, plan >>

Loop(m, p) == Take(m, p) \/ Call(m, p) \/ Return(m, p) \/ Mark(m, p)
Next == \/ \E p \in All : Publish(p)
        \/ Assign \/ Shift
        \/ \E m \in Members : Again(m) \/ Expel(m) \/ Crash(m) \/ Stop(m) \/ (\E p \in All : Claim(m, p) \/ Loop(m, p) \/ Commit(m, p) \/ Give(m, p))
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Assign) /\ \A p \in All : WF_vars(Publish(p))
        /\ \A m \in Members : /\ WF_vars(Again(m))
                              /\ \A p \in All : WF_vars(Claim(m, p)) /\ SF_vars(Loop(m, p)) /\ WF_vars(Commit(m, p)) /\ SF_vars(Give(m, p))

\* the code never does what the specification forbids
Allowed ==
  \A m \in Members \ gone, p \in All :
    /\ p \in part[m] /\ pc[m][p] = "call" => StepCall(s, m, p, at[m][p]) # {}
    /\ p \in part[m] /\ pc[m][p] = "return" => StepReturn(s, m, p, at[m][p]) # {}
    /\ p \in part[m] /\ m \in Known /\ own[p] = m /\ mark[m][p] > s.comm[p] => StepCommit(s, m, p, mark[m][p]) # {}
    /\ own[p] = m /\ ~shift /\ m \in Known /\ p \notin part[m] => StepClaim(s, m, p) # {}
    /\ shift /\ m \in Known /\ part[m] = {} => StepStopped(s, m) # {}
NoSkip == \A p \in All : \A i \in 1..s.comm[p] : s.good[p][i] => i \in s.done[p]
\* (that nothing is handed over twice without trouble is part of StepCall)
Handed == Members = gone \/ (Rest(s) /\ \A p \in All : Len(s.good[p]) = Msgs)
Delivered == <>[]Handed
==================================================================================
