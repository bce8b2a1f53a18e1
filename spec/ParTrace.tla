------------------------------ MODULE ParTrace ------------------------------
EXTENDS Par, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err
tvars == <<parvars, tid, l, err>>
Ev == Traces[tid].ev
e == Ev[l]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ err = "" /\ ParInit(Traces[tid].p)
CallClause ==
  IF outcome # "running" THEN "call-after-answer"
  ELSE IF e.n \notin DOMAIN P.nodes THEN "unknown-node-called"
  ELSE IF e.n \in Overrides(P) \cup OvSeq(P) THEN "overridden-node-called"
  ELSE IF e.n \notin DOMAIN calls THEN "unneeded-node-called"
  ELSE IF e.n \notin DOMAIN D.den.args THEN "called-although-upstream-failed"
  ELSE IF Len(calls[e.n]) >= Len(Expected(e.n)) THEN "called-more-often-than-items"
  ELSE IF DOMAIN e.args # ParamSet(P,e.n) THEN "wrong-argument-names"
  ELSE IF Kind(P,e.n) = "collect" /\ e.args[P.nodes[e.n].cparam] # Expected(e.n)[1][P.nodes[e.n].cparam]
       THEN "collect-not-in-item-order"
  ELSE IF ~Owed(e.n,e.args) THEN "wrong-argument-value"
  ELSE IF ~DepsDone(e.n) THEN "called-before-dependencies"
  ELSE ""
ReturnClause ==
  IF outcome # "running" THEN "second-answer"
  ELSE IF nfail > 0 \/ D.den.poison THEN "failure-swallowed"
  ELSE IF ~AllMade THEN "required-call-missing"
  ELSE IF DOMAIN e.res # Final(P) THEN "wrong-result-keys"
  ELSE IF \E x \in Final(P) : e.res[x] # ResultOf(x) THEN "wrong-result-value"
  ELSE ""
RaiseClause ==
  IF outcome # "running" THEN "second-answer"
  ELSE IF nfail = 0 THEN "valid-request-raised"
  ELSE IF e.who \notin Fails(P) THEN "wrong-error-raised"
  ELSE ""
Clause == CASE e.ev = "call"   -> CallClause
            [] e.ev = "return" -> ReturnClause
            [] e.ev = "raise"  -> RaiseClause
            [] e.ev = "hang"   -> "did-not-terminate"
            [] OTHER           -> "unexpected-event-" \o e.ev
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<parvars, tid, l>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<err, tid>>
          /\ \/ e.ev = "call" /\ Call(e.n, e.args, e.out # -2)
             \/ e.ev = "return" /\ Return
             \/ e.ev = "raise" /\ Raise
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE IF outcome = "running" THEN "no-answer" ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<parvars, tid, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
TraceInv == NeverTooMany /\ BagsMatch /\ CollectAfterAll /\ CollectInOrder
=============================================================================
