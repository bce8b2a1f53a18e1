------------------------------ MODULE ModTrace ------------------------------
(***************************************************************************)
(* Validates what the real system did with a decorated module:             *)
(*   [ev|->"nodes", names]  nodes the built driver offers                  *)
(*   [ev|->"buildraise"]    construction refused                           *)
(*   [ev|->"req", final]    a request starts                               *)
(*   [ev|->"call", f, args] a user function was called                     *)
(*   [ev|->"return", res] / [ev|->"raise"]                                 *)
(***************************************************************************)
EXTENDS Modifiers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err, defs, env, left, want, fails
tvars == <<tid, l, err, defs, env, left, want, fails>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
Init ==
  /\ tid \in 1..Len(Traces) /\ l = 1 /\ err = ""
  /\ defs = Nodes(T.p)
  /\ env = IF Ambiguous(T.p.decls, T.p.config) THEN NoFn ELSE EvalAll(T.p, defs)
  /\ left = {} /\ want = {} /\ fails = FALSE
Bad == Ambiguous(T.p.decls, T.p.config)
Match(n) == defs[n].fn.f = e.f /\ ArgsOf(defs[n],env,T.p.kid) = e.args
SameFn(n) == defs[n].fn.f = e.f
Clause ==
  CASE e.ev = "nodes" -> IF Bad THEN "ambiguous-definition-accepted"
                         ELSE IF Rng(e.names) # DOMAIN defs THEN "wrong-node-set" ELSE ""
    [] e.ev = "buildraise" -> IF Bad THEN "" ELSE "valid-module-rejected"
    [] e.ev = "req" -> ""
    [] e.ev = "call" -> IF \E n \in left : Match(n) THEN ""
                        ELSE IF \E n \in left : SameFn(n) THEN "wrong-argument-value"
                        ELSE "call-not-owed"
    [] e.ev = "return" -> IF fails THEN "missing-field-not-reported"
                          ELSE IF left # {} THEN "owed-call-missing"
                          ELSE IF DOMAIN e.res # want THEN "wrong-result-keys"
                          ELSE IF \E x \in want : e.res[x] # env[x] THEN "wrong-result-value" ELSE ""
    [] e.ev = "raise" -> IF fails THEN "" ELSE "valid-request-raised"
    [] e.ev = "hang" -> "did-not-terminate"
    [] OTHER -> "unexpected-event"
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<tid, l, defs, env, left, want, fails>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<tid, err, defs, env>>
          /\ want' = IF e.ev = "req" THEN Rng(e.final) ELSE want
          /\ fails' = IF e.ev = "req" THEN \E n \in Needed(defs, Rng(e.final)) : env[n] = <<>> ELSE fails
          /\ left' = CASE e.ev = "req" -> {n \in Owed(defs, Rng(e.final)) : env[n] # <<>>}
                       [] e.ev = "call" -> left \ {CHOOSE n \in left : Match(n)}
                       [] OTHER -> left
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err, defs, env, left, want, fails>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
