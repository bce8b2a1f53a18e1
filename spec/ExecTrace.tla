------------------------------ MODULE ExecTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the real engines against Exec.         *)
(* Each line of TRACES: [p |-> program, ev |-> Seq(event), grp |-> ...].   *)
(* events: [ev|->"call",n,args,out] (out = -2: the function raised),       *)
(*         [ev|->"return",res] , [ev|->"raise",cls,who] , [ev|->"hang"]    *)
(* The verdict is total: "ok" or the clause that failed, with the position.*)
(***************************************************************************)
EXTENDS Exec, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err
tvars == <<execvars, tid, l, err>>
Ev == Traces[tid].ev
Init ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1 /\ err = ""
  /\ P = Traces[tid].p
  /\ env = BaseEnv(P) /\ called = {} /\ failed = {} /\ outcome = "running"

e == Ev[l]
\* which clause of Call does the event break?
CallClause ==
  LET n == e.n IN
  IF outcome # "running" THEN "call-after-answer"
  ELSE IF Rejected(P) THEN "ran-although-request-invalid"
  ELSE IF n \notin NodeNames(P) THEN "unknown-node-called"
  ELSE IF n \in Overrides(P) THEN "overridden-node-called"
  ELSE IF n \notin Executed(P) THEN "unneeded-node-called"
  ELSE IF n \in called THEN "node-called-twice"
  ELSE IF ~(UsedParams(P,n) \subseteq DOMAIN env) THEN "called-before-dependencies"
  ELSE IF DOMAIN e.args # ParamSet(P,n) \/ e.args # ArgsOf(P,n,env) THEN "wrong-argument-value"
  ELSE IF n \in Fails(P) /\ e.out # -2 THEN "recorder"
  ELSE IF n \notin Fails(P) /\ e.out # Apply(P.nodes[n], e.args) THEN "recorder"
  ELSE ""
ReturnClause ==
  IF outcome # "running" THEN "second-answer"
  ELSE IF Rejected(P) THEN "invalid-request-answered"
  ELSE IF failed # {} THEN "failure-swallowed"
  ELSE IF called # Executed(P) THEN "required-node-not-called"
  ELSE IF DOMAIN e.res # Final(P) THEN "wrong-result-keys"
  ELSE IF \E x \in Final(P) : e.res[x] # env[x] THEN "wrong-result-value"
  ELSE ""
RaiseClause ==
  IF outcome # "running" THEN "second-answer"
  ELSE IF Rejected(P) THEN (IF called # {} THEN "ran-although-request-invalid" ELSE "")
  ELSE IF failed = {} THEN "valid-request-raised"
  ELSE IF e.who \notin failed THEN "wrong-error-raised"
  ELSE ""
Clause == CASE e.ev = "call"   -> CallClause
            [] e.ev = "return" -> ReturnClause
            [] e.ev = "raise"  -> RaiseClause
            [] e.ev = "validated" -> IF Rejected(P) THEN "invalid-request-validated" ELSE ""
            [] e.ev = "hang"   -> "did-not-terminate"
            [] OTHER           -> "unexpected-event-" \o e.ev
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<execvars, tid, l>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<err, tid>>
          /\ \/ e.ev = "call" /\ e.out # -2 /\ CallOk(e.n, e.args, e.out)
             \/ e.ev = "call" /\ e.out = -2 /\ CallFail(e.n, e.args)
             \/ e.ev = "return" /\ Return([x \in Final(P) |-> e.res[x]])
             \/ e.ev = "raise" /\ Raise
             \/ e.ev = "validated" /\ outcome' = "returned" /\ UNCHANGED <<P, env, called, failed>>
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE IF outcome = "running" THEN "no-answer" ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<execvars, tid, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
\* the design invariants, evaluated at every state of every recorded execution
TraceInv == ValuesRight /\ OnlyNeeded /\ NothingIfRejected /\ OverridesNeverRun /\ DownstreamOfFailureNotRun
=============================================================================
