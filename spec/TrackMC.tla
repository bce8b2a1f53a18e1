------------------------------ MODULE TrackMC ------------------------------
(* Design model: two producers, the worker, refusals of the backend, stop(). *)
EXTENDS Track
CONSTANTS MaxBatch, Refusals, Script
(* Script: producer |-> sequence of items *)
S1 == [p1 |-> <<[run |-> 1, node |-> "a", id |-> 1, upd |-> [s |-> "run", t |-> "0"]], [run |-> 1, node |-> "a", id |-> 2, upd |-> [s |-> "ok"]],
                [run |-> 2, node |-> "a", id |-> 3, upd |-> [s |-> "run", t |-> "1"]]>>,
       p2 |-> <<[run |-> 1, node |-> "b", id |-> 4, upd |-> [s |-> "run"]], [run |-> 2, node |-> "b", id |-> 5, upd |-> [s |-> "run", t |-> "2"]],
                [run |-> 2, node |-> "b", id |-> 6, upd |-> [s |-> "bad"]]>>]
S2 == [p1 |-> S1.p1 \o <<[run |-> 1, node |-> "a", id |-> 7, upd |-> [s |-> "ok", t |-> "3"]]>>, p2 |-> S1.p2 \o <<[run |-> 1, node |-> "b", id |-> 8, upd |-> [s |-> "ok"]]>>]
VARIABLES todo, q, batch, sending, pc, running, state, attrs, refused, left, stopped
vars == <<todo, q, batch, sending, pc, running, state, attrs, refused, left, stopped>>
Init == /\ todo = Script /\ q = <<>> /\ batch = <<>> /\ sending = <<>> /\ pc = "get" /\ running = TRUE /\ stopped = FALSE
        /\ state = NoFn /\ attrs = <<>> /\ refused = {} /\ left = Refusals
Submit == \E p \in DOMAIN todo : /\ todo[p] # <<>> /\ ~stopped
            /\ q' = Append(q, Head(todo[p])) /\ todo' = [todo EXCEPT ![p] = Tail(@)]
            /\ UNCHANGED <<batch, sending, pc, running, state, attrs, refused, left, stopped>>
(* the worker *)
Get == pc = "get" /\ running /\ q # <<>>
         /\ batch' = Append(batch, Head(q)) /\ q' = Tail(q)
         /\ \E go \in BOOLEAN : pc' = (IF go \/ Len(batch') >= MaxBatch THEN "flush" ELSE "get")
         /\ UNCHANGED <<todo, sending, running, state, attrs, refused, left, stopped>>
TimeOut == pc = "get" /\ running /\ batch # <<>> /\ pc' = "flush" /\ UNCHANGED <<todo, q, batch, sending, running, state, attrs, refused, left, stopped>>
Quit == pc = "get" /\ ~running /\ pc' = (IF batch = <<>> THEN "done" ELSE "flush")
         /\ UNCHANGED <<todo, q, batch, sending, running, state, attrs, refused, left, stopped>>
Begin == pc = "flush" /\ sending' = batch /\ batch' = <<>> /\ pc' = "send" /\ UNCHANGED <<todo, q, running, state, attrs, refused, left, stopped>>
Deliver(r) ==
  LET mine == SelectSeq(sending, LAMBDA i : i.run = r) IN
  /\ sending' = SelectSeq(sending, LAMBDA i : i.run # r)
  /\ \/ /\ state' = Over(state, [k \in {<<r, n>> : n \in NodesIn(sending, r)} |->
                             Over(IF k \in DOMAIN state THEN state[k] ELSE NoFn, Fold(Upds(Of(sending, r, k[2]))))])
        /\ attrs' = attrs \o Ids(mine) /\ UNCHANGED <<refused, left>>
     \/ left > 0 /\ left' = left - 1 /\ refused' = refused \cup Rng(Ids(mine)) /\ UNCHANGED <<state, attrs>>
Send == pc = "send" /\ sending # <<>> /\ (\E r \in Runs(sending) : Deliver(r)) /\ UNCHANGED <<todo, q, batch, pc, running, stopped>>
Sent == pc = "send" /\ sending = <<>> /\ pc' = "get" /\ UNCHANGED <<todo, q, batch, sending, running, state, attrs, refused, left, stopped>>
(* stop() *)
Stop == running /\ running' = FALSE /\ UNCHANGED <<todo, q, batch, sending, pc, state, attrs, refused, left, stopped>>
Drain == pc = "done" /\ ~stopped /\ q # <<>> /\ q' = Tail(q) /\ sending' = <<Head(q)>> /\ pc' = "drain"
         /\ UNCHANGED <<todo, batch, running, state, attrs, refused, left, stopped>>
Drain2 == pc = "drain" /\ (\E r \in Runs(sending) : Deliver(r)) /\ pc' = "done" /\ UNCHANGED <<todo, q, batch, running, stopped>>
Stopped == pc = "done" /\ ~stopped /\ q = <<>> /\ stopped' = TRUE /\ UNCHANGED <<todo, q, batch, sending, pc, running, state, attrs, refused, left>>
Worker == Get \/ TimeOut \/ Quit \/ Begin \/ Send \/ Sent \/ Drain \/ Drain2 \/ Stopped
Next == Submit \/ Worker \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(Submit)
All == UNION {Rng(Script[p]) : p \in DOMAIN Script}
Submitted == UNION {Rng(SubSeq(Script[p], 1, Len(Script[p]) - Len(todo[p]))) : p \in DOMAIN todo}
Once == \A i, j \in DOMAIN attrs : i # j => attrs[i] # attrs[j]
NothingInvented == Rng(attrs) \subseteq {i.id : i \in Submitted}
NoLossAtStop == stopped => {i.id : i \in Submitted} = Rng(attrs) \cup refused
FinalState == (stopped /\ refused = {}) => \A p \in DOMAIN Script : LET s == SubSeq(Script[p], 1, Len(Script[p]) - Len(todo[p])) IN
                 \A i \in Rng(s) : state[<<i.run, i.node>>] = Fold(Upds(Of(s, i.run, i.node)))
Delivered == \A i \in All : (i \in Submitted) ~> (stopped \/ i.id \in Rng(attrs) \cup refused)
NeverBack == [][\A k \in DOMAIN state : k \in DOMAIN state']_vars
=============================================================================
