----------------------------- MODULE TaskTrace ------------------------------
\* Recorded behaviour of the real scheduler against the guards of TaskSched, for arbitrary programs (ParDen).
EXTENDS ParDen, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err, den, reg, xs, agreed, sub, seenfail, outcome, running
tvars == <<tid, l, err, den, reg, xs, agreed, sub, seenfail, outcome, running>>
P == Traces[tid].p
Ev == Traces[tid].ev
e == Ev[l]
Execs == RangeOf(P.execs)
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ err = ""
        /\ den = DenotePar(Traces[tid].p) /\ reg = Region(Traces[tid].p)
        /\ xs = [x \in RangeOf(Traces[tid].p.execs) |-> "new"]
        /\ agreed = {} /\ sub = EmptyFn /\ seenfail = FALSE /\ outcome = "running" /\ running = {}
\* how many tasks have to contain node n
Count(n) == IF reg[n] = "" THEN 1 ELSE IF reg[n] \in DOMAIN den.seqs THEN Len(den.seqs[reg[n]]) ELSE 0
With(n,states) == Cardinality({t \in DOMAIN sub : n \in sub[t].nodes /\ sub[t].st \in states})
Ex == ExecutedP(P)
Nodes == RangeOf(e.nodes)
DepOk(n,q) == IF q \in Nodes THEN TRUE
              ELSE IF reg[n] # "" /\ reg[q] = reg[n] THEN With(q,{"ok"}) > 0
              ELSE With(q,{"ok"}) = Count(q)
InBlock == \E n \in Nodes \cap DOMAIN reg : reg[n] # ""
SubmitClause ==
  IF outcome # "running" THEN "submitted-after-answer"
  ELSE IF xs[e.x] = "new" THEN "submitted-before-provisioning"
  ELSE IF xs[e.x] = "down" THEN "submitted-after-release"
  ELSE IF e.x \notin agreed THEN "submitted-without-agreement"
  ELSE IF e.t \in DOMAIN sub THEN "task-submitted-twice"
  ELSE IF seenfail THEN "submitted-after-failure"
  ELSE IF P.blocks /\ (e.x = "remote") # InBlock THEN "task-on-wrong-executor"
  ELSE IF \E n \in Nodes \cap Ex : \E q \in ParamSet(P,n) \cap Ex : ~DepOk(n,q) THEN "dependency-not-finished"
  ELSE IF \E n \in Nodes \cap Ex : With(n,{"running","ok"}) >= Count(n) THEN "node-scheduled-too-often"
  ELSE ""
ReturnClause ==
  IF outcome # "running" THEN "second-answer"
  ELSE IF seenfail THEN "failure-not-reported"
  ELSE IF \E n \in Ex : With(n,{"ok"}) # Count(n) THEN "answered-with-unfinished-tasks"
  ELSE IF \E x \in Execs : xs[x] # "down" THEN "executor-not-released"
  ELSE ""
RaiseClause ==
  IF outcome # "running" THEN "second-answer"
  ELSE IF ~seenfail THEN "raised-without-failure"
  ELSE IF e.who \notin Fails(P) \cup {"submit"} THEN "wrong-error-raised"
  ELSE IF \E x \in Execs : xs[x] # "down" THEN "executor-not-released"
  ELSE ""
Clause ==
  CASE e.ev = "init" -> IF xs[e.x] # "new" THEN "provisioned-twice" ELSE ""
    [] e.ev = "finalize" -> IF xs[e.x] # "up" THEN "released-twice"
                            ELSE IF ~seenfail /\ \E t \in DOMAIN sub : sub[t].st = "running" THEN "released-while-in-flight"
                            ELSE ""
    [] e.ev = "ask" -> IF xs[e.x] # "up" THEN "asked-unprovisioned-executor" ELSE ""
    [] e.ev = "submit" -> SubmitClause
    [] e.ev = "complete" -> ""
    [] e.ev = "start" -> IF e.x = "remote" /\ Cardinality(running) >= P.cap THEN "too-many-tasks-at-once" ELSE ""
    [] e.ev \in {"end","stop"} -> ""
    [] e.ev = "serialized" -> "parallel-tasks-serialized"
    [] e.ev = "return" -> ReturnClause
    [] e.ev = "raise" -> RaiseClause
    [] e.ev = "hang" -> "did-not-terminate"
    [] OTHER -> "unexpected-event-" \o e.ev
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<tid, l, den, reg, xs, agreed, sub, seenfail, outcome, running>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<tid, err, den, reg>>
          /\ xs' = CASE e.ev = "init" -> [xs EXCEPT ![e.x] = "up"]
                     [] e.ev = "finalize" -> [xs EXCEPT ![e.x] = "down"]
                     [] OTHER -> xs
          /\ agreed' = CASE e.ev = "ask" /\ e.ok -> agreed \cup {e.x}
                         [] e.ev = "submit" -> agreed \ {e.x}
                         [] OTHER -> agreed
          /\ sub' = CASE e.ev = "submit" -> (e.t :> [nodes |-> Nodes, st |-> "running"]) @@ sub
                      [] e.ev = "complete" -> [sub EXCEPT ![e.t].st = IF e.ok THEN "ok" ELSE "failed"]
                      [] OTHER -> sub
          /\ seenfail' = (seenfail \/ (e.ev = "complete" /\ ~e.ok))
          /\ running' = CASE e.ev = "start" /\ e.x = "remote" -> running \cup {e.t}
                          [] e.ev = "end" -> running \ {e.t}
                          [] OTHER -> running
          /\ outcome' = IF e.ev \in {"return","raise"} THEN e.ev ELSE IF e.ev = "stop" THEN "stopped" ELSE outcome
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE IF outcome = "running" THEN "no-answer" ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err, den, reg, xs, agreed, sub, seenfail, outcome, running>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
