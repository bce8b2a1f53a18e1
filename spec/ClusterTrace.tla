---------------------------- MODULE ClusterTrace ----------------------------
(* Recorded executions on a (stand-in) cluster, against Exec as ExecTrace has it, and besides:
   hooks see every call, with its values, where it runs; options go to the functions that ask for them; connections are paired. *)
EXTENDS ExecTrace
VARIABLES hooked
T == Traces[tid]
HookClause ==
  IF <<e.n, e.k>> \in hooked THEN "hooked-twice"
  ELSE IF e.n \notin Executed(P) THEN "hook-on-unneeded-node"
  ELSE IF e.k = "pre" /\ (e.n \in called \/ ~(UsedParams(P, e.n) \subseteq DOMAIN env)) THEN "hook-out-of-order"
  ELSE IF e.k = "post" /\ (e.n \notin called \/ <<e.n, "pre">> \notin hooked) THEN "hook-out-of-order"
  ELSE IF \E x \in DOMAIN e.args : x \notin ParamSet(P, e.n) \/ e.args[x] # ArgsOf(P, e.n, env)[x] THEN "hook-saw-wrong-arguments"
  ELSE IF e.k = "post" /\ (e.ok # (e.n \notin failed) \/ (e.ok /\ e.out # env[e.n])) THEN "hook-saw-wrong-result"
  ELSE ""
Want(n) == IF n \in DOMAIN T.want THEN T.want[n] ELSE "{}"
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
EndClause ==
  IF T.hook /\ e.ev = "return" /\ {h[1] : h \in {k \in hooked : k[2] = "post"}} # called THEN "call-without-hook"
  ELSE IF \E i \in DOMAIN T.opts : T.opts[i].o # Want(T.opts[i].n) THEN "wrong-options"
  ELSE IF Count(T.net, "init") # Count(T.net, "shutdown") \/ (~T.own /\ Len(T.net) > 0) THEN "connection-not-paired"
  ELSE ""
CClause == IF e.ev = "hook" THEN HookClause
           ELSE LET c == Clause IN IF c = "" /\ e.ev \in {"return", "raise"} THEN EndClause ELSE c
CInit == Init /\ hooked = {}
CStep ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == CClause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<execvars, tid, l, hooked>>
     ELSE IF e.ev = "hook" THEN l' = l + 1 /\ hooked' = hooked \cup {<<e.n, e.k>>} /\ UNCHANGED <<execvars, err, tid>>
     ELSE Step /\ UNCHANGED hooked
CNext == CStep \/ (Report /\ UNCHANGED hooked)
CSpec == CInit /\ [][CNext]_<<tvars, hooked>>
=============================================================================
