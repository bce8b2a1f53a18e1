-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Lifecycle of one request as seen by the registered adapters.            *)
(*   H[k]     : sequence of the adapters implementing hook k, in           *)
(*              registration order (k: pre_graph, pre_task, pre_node,      *)
(*              post_node, post_task, post_graph)                          *)
(*   lanes    : threads (or coroutines); a lane runs one node at a time    *)
(* Every function execution is wrapped: all pre_node hooks, the body, all  *)
(* post_node hooks; task hooks wrap the nodes of their task, graph hooks   *)
(* wrap everything.  A raising pre_node hook suppresses the body and the   *)
(* post hooks; any failure ends the request with success = FALSE.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES H, ph, gi, cur, tasks, failed, done, outcome
lvars == <<H, ph, gi, cur, tasks, failed, done, outcome>>
NoCur == [n |-> "", t |-> "", st |-> "idle", i |-> 0]

LifeInit(h) == /\ H = h /\ ph = "before" /\ gi = 0
               /\ cur = << >> /\ tasks = << >>
               /\ failed = {} /\ done = 0 /\ outcome = "running"
Cur(th) == IF th \in DOMAIN cur THEN cur[th] ELSE NoCur
SetCur(th,c) == cur' = (th :> c) @@ cur
Idle(th) == Cur(th).st = "idle"
Len1(k) == Len(H[k])

PreGraph == /\ ph = "before" /\ gi < Len1("pre_graph")
            /\ gi' = gi + 1 /\ UNCHANGED <<H, ph, cur, tasks, failed, done, outcome>>
Started == ph = "before" /\ gi = Len1("pre_graph")
Running == ph = "running" \/ Started
\* a task is [st: "pre"|"run"|"post"|"done", i, bad]
Task(t) == IF t \in DOMAIN tasks THEN tasks[t] ELSE [st |-> "pre", i |-> 0, bad |-> FALSE]
PreTask(t) == /\ Running /\ Task(t).st = "pre" /\ Task(t).i < Len1("pre_task")
              /\ tasks' = (t :> [Task(t) EXCEPT !.i = @ + 1, !.st = IF Task(t).i + 1 = Len1("pre_task") THEN "run" ELSE "pre"]) @@ tasks
              /\ ph' = "running" /\ UNCHANGED <<H, gi, cur, failed, done, outcome>>
PostTask(t) == /\ Running /\ (Task(t).st = "run" \/ (Task(t).st = "post"))
               /\ LET i == IF Task(t).st = "run" THEN 1 ELSE Task(t).i + 1 IN
                  tasks' = (t :> [Task(t) EXCEPT !.i = i, !.st = IF i = Len1("post_task") THEN "done" ELSE "post"]) @@ tasks
               /\ \A th \in DOMAIN cur : cur[th].st = "idle" \/ cur[th].t # t
               /\ UNCHANGED <<H, ph, gi, cur, failed, done, outcome>>
TaskOpen(t) == t = "" \/ Task(t).st = "run" \/ (Len1("pre_task") = 0)
PreNode(th,n,t,bad) ==
  /\ Running /\ TaskOpen(t)
  /\ \/ Idle(th) /\ SetCur(th, IF bad THEN NoCur ELSE [n |-> n, t |-> t, st |-> "pre", i |-> 1])
     \/ /\ Cur(th).st = "pre" /\ Cur(th).n = n /\ Cur(th).t = t /\ Cur(th).i < Len1("pre_node")
        /\ SetCur(th, IF bad THEN NoCur ELSE [Cur(th) EXCEPT !.i = @ + 1])
  /\ ph' = "running"
  /\ failed' = IF bad THEN failed \cup {n} ELSE failed
  /\ tasks' = IF bad /\ t \in DOMAIN tasks THEN [tasks EXCEPT ![t].bad = TRUE] ELSE tasks
  /\ UNCHANGED <<H, gi, done, outcome>>
Body(th,n,ok) ==
  /\ Running /\ Cur(th).st = "pre" /\ Cur(th).i = Len1("pre_node") /\ Cur(th).n = n
  /\ SetCur(th,[Cur(th) EXCEPT !.st = IF ok THEN "ok" ELSE "bad", !.i = 0])
  /\ failed' = IF ok THEN failed ELSE failed \cup {n}
  /\ tasks' = IF ~ok /\ Cur(th).t \in DOMAIN tasks THEN [tasks EXCEPT ![Cur(th).t].bad = TRUE] ELSE tasks
  /\ ph' = "running"
  /\ UNCHANGED <<H, gi, done, outcome>>
PostNode(th,n,bad) ==
  /\ Running /\ Cur(th).st \in {"ok","bad"} /\ Cur(th).n = n /\ Cur(th).i < Len1("post_node")
  /\ SetCur(th, IF bad \/ Cur(th).i + 1 = Len1("post_node") THEN NoCur ELSE [Cur(th) EXCEPT !.i = @ + 1])
  /\ done' = IF bad \/ Cur(th).i + 1 = Len1("post_node") THEN done + 1 ELSE done
  /\ failed' = IF bad THEN failed \cup {n} ELSE failed
  /\ tasks' = IF bad /\ Cur(th).t \in DOMAIN tasks THEN [tasks EXCEPT ![Cur(th).t].bad = TRUE] ELSE tasks
  /\ UNCHANGED <<H, ph, gi, outcome>>
Quiet == \A th \in DOMAIN cur : cur[th].st = "idle"
TasksDone == \A t \in DOMAIN tasks : tasks[t].st = "done" \/ Len1("post_task") = 0
PostGraph == /\ \/ Running /\ gi' = 1
                \/ ph = "after" /\ gi < Len1("post_graph") /\ gi' = gi + 1
             /\ ph' = "after" /\ UNCHANGED <<H, cur, tasks, failed, done, outcome>>
Closed == ph = "after" /\ gi = Len1("post_graph")
Answer(ok) == /\ Closed /\ outcome = "running" /\ ok = (failed = {})
              /\ outcome' = (IF ok THEN "returned" ELSE "raised")
              /\ UNCHANGED <<H, ph, gi, cur, tasks, failed, done>>
=============================================================================
