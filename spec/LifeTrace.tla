----------------------------- MODULE LifeTrace ------------------------------
EXTENDS Life, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err, kws, outs, run, had
tvars == <<lvars, tid, l, err, kws, outs, run, had>>
P == Traces[tid].p
Ev == Traces[tid].ev
e == Ev[l]
Get(f,k) == IF k \in DOMAIN f THEN f[k] ELSE << >>
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ err = "" /\ kws = << >> /\ outs = << >> /\ run = "" /\ had = {}
        /\ LifeInit(Traces[tid].p.h)
\* the adapter whose turn it is
\* (asynchronous adapters run concurrently: any order, each once)
Point(k) == <<k, IF k \in {"pre_node","post_node"} THEN e.n ELSE "", e.a>>
Turn(k,i) == /\ i <= Len(H[k])
             /\ IF P.async THEN e.a \in RangeOf(H[k]) /\ Point(k) \notin had ELSE H[k][i] = e.a
RunOk == run = "" \/ e.run = run
Late == outcome # "running" \/ ph = "after"
AsyncTail == P.async /\ failed # {}        \* orphaned coroutines after a failed async request
PreGraphC == IF ph # "before" \/ gi >= Len1("pre_graph") THEN "graph-hook-repeated"
             ELSE IF ~Turn("pre_graph",gi+1) THEN "wrong-adapter-order"
             ELSE IF ~RunOk \/ e.run \in RangeOf(P.prev) THEN "run-id-wrong"
             ELSE IF e.final # P.final \/ e.inputs # P.inputs \/ e.overrides # P.overrides THEN "wrong-graph-hook-arguments"
             ELSE ""
PreTaskC == IF Late THEN "hook-after-graph-hook"
            ELSE IF ~Running THEN "task-before-graph-hook"
            ELSE IF Task(e.t).st # "pre" THEN "task-hook-repeated"
            ELSE IF ~Turn("pre_task",Task(e.t).i+1) THEN "wrong-adapter-order"
            ELSE IF ~RunOk THEN "run-id-wrong" ELSE ""
PostTaskC == IF Late THEN "hook-after-graph-hook"
             ELSE IF Task(e.t).st \notin {"run","post"} THEN "task-hooks-not-paired"
             ELSE IF ~Turn("post_task",IF Task(e.t).st = "run" THEN 1 ELSE Task(e.t).i+1) THEN "wrong-adapter-order"
             ELSE IF \E th \in DOMAIN cur : cur[th].st # "idle" /\ cur[th].t = e.t THEN "task-ended-before-its-nodes"
             ELSE IF e.ok # ~Task(e.t).bad THEN "task-success-flag-wrong"
             ELSE IF ~RunOk THEN "run-id-wrong" ELSE ""
PreNodeC == IF Late THEN (IF AsyncTail THEN "" ELSE "hook-after-graph-hook")
            ELSE IF ~Running THEN "node-before-graph-hook"
            ELSE IF ~TaskOpen(e.t) THEN "node-outside-its-task"
            ELSE IF P.tasks # (e.t # "") THEN "task-id-missing"
            ELSE IF Idle(e.th) THEN (IF ~Turn("pre_node",1) THEN "wrong-adapter-order" ELSE IF ~RunOk THEN "run-id-wrong" ELSE "")
            ELSE IF Cur(e.th).st # "pre" \/ Cur(e.th).n # e.n \/ Cur(e.th).t # e.t \/ Cur(e.th).i >= Len1("pre_node")
                 THEN "node-hooks-not-paired"
            ELSE IF ~Turn("pre_node",Cur(e.th).i+1) THEN "wrong-adapter-order"
            ELSE IF e.kw # Get(kws,e.th) THEN "hook-arguments-differ"
            ELSE ""
CallC == IF Late THEN (IF AsyncTail THEN "" ELSE "call-after-graph-hook")
         ELSE IF Cur(e.th).st \in {"ok","bad"} /\ Cur(e.th).n = e.n THEN "executed-twice"
         ELSE IF Cur(e.th).st # "pre" \/ Cur(e.th).n # e.n \/ Cur(e.th).i # Len1("pre_node") THEN "executed-without-pre-hook"
         ELSE IF \E q \in DOMAIN Get(kws,e.th) : q \notin DOMAIN e.args \/ e.args[q] # Get(kws,e.th)[q] THEN "hook-arguments-differ"
         ELSE IF P.method /\ ~e.via THEN "execution-method-bypassed"
         ELSE ""
PostNodeC == IF Late THEN (IF AsyncTail THEN "" ELSE "hook-after-graph-hook")
             ELSE IF Cur(e.th).st \notin {"ok","bad"} \/ Cur(e.th).n # e.n \/ Cur(e.th).t # e.t THEN "post-hook-without-execution"
             ELSE IF ~Turn("post_node",Cur(e.th).i+1) THEN "wrong-adapter-order"
             ELSE IF e.kw # Get(kws,e.th) THEN "hook-arguments-differ"
             ELSE IF e.ok # (Cur(e.th).st = "ok") THEN "node-success-flag-wrong"
             ELSE IF e.ok /\ e.who # "none" THEN "error-reported-for-success"
             ELSE IF ~e.ok /\ e.who # e.n THEN "wrong-error-reported"
             ELSE IF e.ok /\ e.cmp /\ e.res # Get(outs,e.th) THEN "wrong-result-reported"
             ELSE IF ~RunOk THEN "run-id-wrong" ELSE ""
PostGraphC == IF ph = "before" /\ ~Started THEN "graph-hooks-not-paired"
              ELSE IF ph = "after" /\ gi >= Len1("post_graph") THEN "graph-hook-repeated"
              ELSE IF ~Turn("post_graph",IF ph = "after" THEN gi+1 ELSE 1) THEN "wrong-adapter-order"
              ELSE IF ~Quiet /\ ~AsyncTail THEN "graph-hook-before-post-node-hook"
              ELSE IF ~TasksDone THEN "graph-hook-before-post-task-hook"
              ELSE IF e.ok # (failed = {}) THEN "graph-success-flag-wrong"
              ELSE IF e.ok /\ e.who # "none" THEN "error-reported-for-success"
              ELSE IF ~e.ok /\ e.who \notin failed THEN "wrong-error-reported"
              ELSE IF e.ok /\ P.ev_res # e.results THEN "wrong-result-reported"
              ELSE IF ~RunOk THEN "run-id-wrong" ELSE ""
AnswerC(ok) == IF outcome # "running" THEN "second-answer"
               ELSE IF ~Closed THEN "answered-without-post-graph-hook"
               ELSE IF ok # (failed = {}) THEN "answer-contradicts-hooks"
               ELSE IF ~ok /\ e.who \notin failed THEN "wrong-error-raised"
               ELSE ""
BuildC == IF ph # "before" \/ gi > 0 THEN "construction-hook-late" ELSE ""
Clause == CASE e.ev = "pre_graph" -> PreGraphC
            [] e.ev = "pre_task" -> PreTaskC
            [] e.ev = "pre_node" -> PreNodeC
            [] e.ev = "call" -> CallC
            [] e.ev = "post_node" -> PostNodeC
            [] e.ev = "post_task" -> PostTaskC
            [] e.ev = "post_graph" -> PostGraphC
            [] e.ev = "return" -> AnswerC(TRUE)
            [] e.ev = "raise" -> AnswerC(FALSE)
            [] e.ev = "hang" -> "did-not-terminate"
            [] OTHER -> "unexpected-event-" \o e.ev
Skip == Late /\ AsyncTail /\ e.ev \in {"pre_node","call","post_node"}
Act == CASE Skip -> UNCHANGED lvars
         [] e.ev = "pre_graph" -> PreGraph
         [] e.ev = "pre_task" -> PreTask(e.t)
         [] e.ev = "pre_node" -> PreNode(e.th,e.n,e.t,e.boom)
         [] e.ev = "call" -> Body(e.th,e.n,e.out # -2)
         [] e.ev = "post_node" -> PostNode(e.th,e.n,e.boom)
         [] e.ev = "post_task" -> PostTask(e.t)
         [] e.ev = "post_graph" -> PostGraph
         [] e.ev = "return" -> Answer(TRUE)
         [] OTHER -> Answer(FALSE)
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<lvars, tid, l, kws, outs, run, had>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<err, tid>> /\ Act
          /\ kws' = IF e.ev = "pre_node" /\ Idle(e.th) THEN (e.th :> e.kw) @@ kws ELSE kws
          /\ outs' = IF e.ev = "call" THEN (e.th :> e.out) @@ outs ELSE outs
          /\ had' = IF P.async /\ e.ev \in DOMAIN H THEN had \cup {Point(e.ev)} ELSE had
          /\ run' = IF e.ev = "pre_graph" THEN e.run ELSE run
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE IF outcome = "running" THEN "no-answer" ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<lvars, tid, err, kws, outs, run, had>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
