---------------------------- MODULE TrackTrace ----------------------------
(* Validates recorded histories of the tracking client (events sub, recv, settled, stop, stopped) and recorded runs (event exec). *)
EXTENDS Track, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err, wait, owed, must, refused
tvars == <<tid, l, err, wait, owed, must, refused>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = "" /\ wait = NoFn /\ owed = <<>> /\ must = {} /\ refused = {}
(* wait: <<run, node>> |-> calls waiting; owed: attributes [id, run, name] not yet seen *)
Waiting(r, n) == IF <<r, n>> \in DOMAIN wait THEN wait[<<r, n>>] ELSE <<>>
K(u) == Segment(Waiting(e.run, u.node), u.upd)
Again(u) == \E x \in refused : x[1] = e.run /\ x[2] = u.node /\ x[3] = u.upd
RecvClause ==
  IF \E i, j \in DOMAIN e.upds : i # j /\ e.upds[i].node = e.upds[j].node THEN "two-updates-of-a-node-in-a-request"
  ELSE IF \E i \in DOMAIN e.upds : K(e.upds[i]) = 0 /\ ~Again(e.upds[i]) THEN "update-garbled"
  ELSE IF \E i, j \in DOMAIN e.attrs : i # j /\ e.attrs[i] = e.attrs[j] THEN "attribute-twice"
  ELSE IF \E i \in DOMAIN e.attrs : ~\E o \in Rng(owed) : o.name = e.attrs[i] /\ o.run = e.run THEN
          (IF \E i \in DOMAIN e.attrs : \E x \in refused : x[1] = e.run /\ x[2] = e.attrs[i] THEN "" ELSE "attribute-nobody-sent")
  ELSE ""
Late(ids) == (\E o \in Rng(owed) : o.id \in ids) \/ \E k \in DOMAIN wait : \E i \in DOMAIN wait[k] : wait[k][i].id \in ids
Everything == {o.id : o \in Rng(owed)} \cup UNION {{wait[k][i].id : i \in DOMAIN wait[k]} : k \in DOMAIN wait}

(*------------------------------ recorded runs ------------------------------*)
Named(ts, n) == {i \in DOMAIN ts : ts[i].name = n}
TaskClause(x, t) ==
  LET S == {i \in DOMAIN x.tasks : x.tasks[i].name = t.name} IN
  IF S = {} THEN "task-not-reported"
  ELSE LET b == x.tasks[CHOOSE i \in S : TRUE] IN
    IF b.tmpl # t.node THEN "task-of-another-node"
    ELSE IF Rng(b.deps) # Rng(t.deps) THEN "task-dependencies-wrong"
    ELSE IF t.open THEN ""
    ELSE IF b.status # (IF t.ok THEN "SUCCESS" ELSE "FAILURE") THEN "task-status-wrong"
    ELSE IF t.timed /\ ~(b.start <= t.b0 /\ t.b1 <= b.end) THEN "task-interval-wrong"
    ELSE IF ~(b.start <= b.end) THEN "task-interval-wrong"
    ELSE IF Cardinality({i \in DOMAIN b.attrs : b.attrs[i] = (IF t.ok THEN "result_summary/result_summary" ELSE "stack_trace/error")}) # 1 THEN "task-summary-wrong"
    ELSE IF Cardinality({i \in DOMAIN b.attrs : b.attrs[i] = (IF ~t.ok THEN "result_summary/result_summary" ELSE "stack_trace/error")}) # 0 THEN "task-summary-wrong"
    ELSE ""
(* sampling leaves out whole parallel blocks, except for what failed *)
Sampled(x, t) == \/ x.strat.kind = "none" \/ t.block < 0
                 \/ x.strat.kind = "mod" /\ t.block % x.strat.k = 0
                 \/ x.strat.kind = "share" /\ x.strat.k = 1
Told(x, t) == Sampled(x, t) \/ (~t.open /\ ~t.ok)
ExecClause(x) ==
  LET expect == SelectSeq(x.truth, LAMBDA t : Told(x, t))
      bad == {c \in {TaskClause(x, expect[i]) : i \in DOMAIN expect} : c # ""} IN
  IF x.changed THEN "tracking-changed-the-result"
  ELSE IF x.runs = 0 /\ x.began THEN "run-not-recorded"
  ELSE IF x.runs > 1 THEN "run-recorded-twice"
  ELSE IF x.runs = 0 THEN ""
  ELSE IF Rng(x.tmplnodes) # Rng(x.names) THEN "run-of-another-graph"
  ELSE IF ~(Rng(x.codes) \subseteq Rng(x.tmplcodes)) THEN "run-of-other-code"
  ELSE IF Rng(x.outputs) # Rng(x.final) THEN "run-outputs-wrong"
  ELSE IF x.ends # <<IF x.ok THEN "SUCCESS" ELSE "FAILURE">> THEN "run-status-wrong"
  ELSE IF bad # {} THEN CHOOSE c \in bad : TRUE
  ELSE IF \E i \in DOMAIN x.tasks : ~\E j \in DOMAIN x.truth : x.truth[j].name = x.tasks[i].name /\ Told(x, x.truth[j]) THEN "task-invented"
  ELSE ""

Clause ==
  CASE e.ev = "sub" -> ""
    [] e.ev = "recv" -> RecvClause
    [] e.ev = "settled" -> IF Everything # {} THEN "not-delivered" ELSE ""
    [] e.ev = "stop" -> ""
    [] e.ev = "stopped" -> IF ~e.ended THEN "stop-does-not-end" ELSE IF Late(must) THEN "lost-at-stop" ELSE ""
    [] e.ev = "exec" -> ExecClause(e)
    [] OTHER -> "unexpected-event"
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<tid, l, wait, owed, must, refused>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
          /\ CASE e.ev = "sub" ->
                  /\ wait' = IF e.upd = NoFn \/ DOMAIN e.upd = {} THEN wait
                             ELSE Over(wait, [k \in {<<e.run, e.node>>} |-> Append(Waiting(e.run, e.node), [id |-> e.id, upd |-> e.upd])])
                  /\ owed' = owed \o [i \in DOMAIN e.attrs |-> [id |-> e.id, run |-> e.run, name |-> e.attrs[i]]]
                  /\ UNCHANGED <<must, refused>>
               [] e.ev = "recv" ->
                  /\ wait' = [k \in DOMAIN wait |->
                                LET U == {i \in DOMAIN e.upds : k = <<e.run, e.upds[i].node>>} IN
                                IF U = {} THEN wait[k] ELSE LET u == e.upds[CHOOSE i \in U : TRUE] IN SubSeq(wait[k], K(u) + 1, Len(wait[k]))]
                  /\ owed' = SelectSeq(owed, LAMBDA o : ~(o.run = e.run /\ o.name \in Rng(e.attrs)))
                  /\ refused' = IF e.ok THEN refused ELSE refused \cup {<<e.run, e.attrs[i]>> : i \in DOMAIN e.attrs} \cup {<<e.run, e.upds[i].node, e.upds[i].upd>> : i \in DOMAIN e.upds}
                  /\ UNCHANGED must
               [] e.ev = "stop" -> must' = Rng(e.must) /\ UNCHANGED <<wait, owed, refused>>
               [] OTHER -> UNCHANGED <<wait, owed, must, refused>>
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err, wait, owed, must, refused>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
