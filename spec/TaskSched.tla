----------------------------- MODULE TaskSched ------------------------------
(***************************************************************************)
(* Scheduler of task-based execution.  Tasks are pairs <<group, item>>     *)
(* ("item" 0 outside parallel blocks); the environment - the executors -   *)
(* decides when a submission is accepted and when, and how, an accepted    *)
(* task completes.  The scheduler                                          *)
(*   - provisions every executor exactly once before and releases it       *)
(*     exactly once after everything else, also when the request fails,    *)
(*   - only hands out a task that the executor has just agreed to take,    *)
(*   - hands out a task only when everything it depends on has completed   *)
(*     successfully, and never hands it out twice,                         *)
(*   - hands out nothing more once it has seen a failure, and reports it,  *)
(*   - terminates if the executors do.                                     *)
(* This design model abstracts programs to task graphs; TaskTrace uses the *)
(* same actions' guards on recorded behaviour of the real scheduler.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxItems, MaxRejects
\* a, b ordinary; x expander; blk block tasks (one per item); col collect; z ordinary, depends on col and b
VARIABLES k, st, xs, agreed, rejects, seenfail, outcome
vars == <<k, st, xs, agreed, rejects, seenfail, outcome>>
Execs == {"local","remote"}
Tasks == {<<"a",0>>,<<"b",0>>,<<"x",0>>,<<"col",0>>,<<"z",0>>} \cup {<<"blk",i>> : i \in 1..k}
Where(t) == IF t[1] = "blk" THEN "remote" ELSE "local"
Deps(t) == CASE t[1] = "a" -> {}
             [] t[1] = "b" -> {<<"a",0>>}
             [] t[1] = "x" -> {<<"a",0>>}
             [] t[1] = "blk" -> {<<"x",0>>, <<"b",0>>}
             [] t[1] = "col" -> {<<"x",0>>} \cup {<<"blk",i>> : i \in 1..k}
             [] OTHER -> {<<"col",0>>,<<"b",0>>}
Init == /\ k \in 0..MaxItems /\ st = [t \in Tasks |-> "waiting"] /\ xs = [e \in Execs |-> "new"]
        /\ agreed = {} /\ rejects = 0 /\ seenfail = FALSE /\ outcome = "running"
Ready(t) == st[t] = "waiting" /\ \A d \in Deps(t) : st[d] = "ok"
Provision(e) == /\ xs[e] = "new" /\ outcome = "running" /\ xs' = [xs EXCEPT ![e] = "up"]
                /\ UNCHANGED <<k, st, agreed, rejects, seenfail, outcome>>
Up == \A e \in Execs : xs[e] = "up"
Ask(e,yes) == /\ Up /\ outcome = "running" /\ ~seenfail /\ e \notin agreed
              /\ \E t \in Tasks : Ready(t) /\ Where(t) = e
              /\ (~yes => rejects < MaxRejects)
              /\ agreed' = IF yes THEN agreed \cup {e} ELSE agreed
              /\ rejects' = IF yes THEN 0 ELSE rejects + 1
              /\ UNCHANGED <<k, st, xs, seenfail, outcome>>
Submit(t) == /\ Up /\ outcome = "running" /\ ~seenfail /\ Ready(t) /\ Where(t) \in agreed
             /\ st' = [st EXCEPT ![t] = "running"] /\ agreed' = agreed \ {Where(t)}
             /\ UNCHANGED <<k, xs, rejects, seenfail, outcome>>
Complete(t,ok) == /\ st[t] = "running"
                  /\ st' = [st EXCEPT ![t] = IF ok THEN "ok" ELSE "failed"]
                  /\ seenfail' = (seenfail \/ ~ok)
                  /\ UNCHANGED <<k, xs, agreed, rejects, outcome>>
Release(e) == /\ xs[e] = "up" /\ outcome = "running"
              /\ (seenfail \/ \A t \in Tasks : st[t] = "ok")
              /\ xs' = [xs EXCEPT ![e] = "down"] /\ UNCHANGED <<k, st, agreed, rejects, seenfail, outcome>>
Answer == /\ \A e \in Execs : xs[e] = "down" /\ outcome = "running"
          /\ outcome' = (IF seenfail THEN "raised" ELSE "returned")
          /\ UNCHANGED <<k, st, xs, agreed, rejects, seenfail>>
Next == \/ \E e \in Execs : Provision(e) \/ Ask(e,TRUE) \/ Ask(e,FALSE) \/ Release(e)
        \/ \E t \in Tasks : Submit(t) \/ Complete(t,TRUE) \/ Complete(t,FALSE)
        \/ Answer
Fair == /\ \A e \in Execs : WF_vars(Provision(e)) /\ WF_vars(Ask(e,TRUE)) /\ WF_vars(Release(e))
        /\ WF_vars(\E t \in Tasks : Submit(t))
        /\ WF_vars(\E t \in Tasks : Complete(t,TRUE) \/ Complete(t,FALSE))
        /\ WF_vars(Answer)
Spec == Init /\ [][Next]_vars /\ Fair

DepsFirst == \A t \in Tasks : st[t] # "waiting" => \A d \in Deps(t) : st[d] = "ok"
RunsOnlyProvisioned == (\E t \in Tasks : st[t] # "waiting") => \A e \in Execs : xs[e] # "new"
ReturnedMeansAll == outcome = "returned" => \A t \in Tasks : st[t] = "ok"
ReleasedAtEnd == outcome # "running" => \A e \in Execs : xs[e] = "down"
FailureReported == (outcome # "running" /\ \E t \in Tasks : st[t] = "failed") => outcome = "raised"
NoHandoutAfterFailure == [][\A t \in Tasks : (st[t] = "waiting" /\ st'[t] # "waiting") => ~seenfail]_vars
Terminates == <>(outcome # "running")
=============================================================================
