------------------------------- MODULE MCPipeline -------------------------------
(* The assembled program with few uploads: a rejected one, two that share a trace. *)
EXTENDS Pipeline
MCDoc(u) == CASE u = 1 -> << <<1, 1, 1>>, <<2, 1, 2>>, <<1, 1, 3>> >>
              [] u = 2 -> << <<2, 2, 1>>, <<1, 2, 2>> >>
              [] u = 3 -> <<>>
              [] u = 4 -> << <<1, 4, 1>> >>
MCAt(u) == IF 2 \in Nodes /\ u = 2 THEN 2 ELSE 1
MCDropped == { <<1, 1, 1>> }
=================================================================================
