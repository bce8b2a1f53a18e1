------------------------------ MODULE Cluster ------------------------------
(***************************************************************************)
(* The same request executed on a cluster: the walk over the graph sends   *)
(* every needed function away once what it depends on has been sent, with  *)
(* references in place of values; sent work runs anywhere, in any order,   *)
(* once the references it was given are there; the answer is put together  *)
(* where the request was made.  Whatever the order, this is Exec.          *)
(***************************************************************************)
EXTENDS Exec
VARIABLES sent,     \* functions sent away, as a set: none is sent twice
          walked    \* the walk is over
cvars == <<execvars, sent, walked>>
ClusterInit(Progs) == ExecInit(Progs) /\ sent = {} /\ walked = FALSE
Fns(n) == UsedParams(P, n) \cap Executed(P)
Send(n) ==
  /\ outcome = "running" /\ ~Rejected(P) /\ ~walked
  /\ n \in Executed(P) \ sent /\ Fns(n) \subseteq sent
  /\ sent' = sent \cup {n} /\ UNCHANGED <<execvars, walked>>
EndWalk == outcome = "running" /\ ~Rejected(P) /\ ~walked /\ sent = Executed(P) /\ walked' = TRUE /\ UNCHANGED <<execvars, sent>>
Work(n) ==
  /\ n \in sent \ called /\ UNCHANGED <<sent, walked>>
  /\ \/ CallOk(n, ArgsOf(P,n,env), Apply(P.nodes[n], ArgsOf(P,n,env)))
     \/ CallFail(n, ArgsOf(P,n,env))
Gather ==
  /\ UNCHANGED <<sent, walked>>
  /\ \/ walked /\ Final(P) \subseteq DOMAIN env /\ Return([x \in Final(P) |-> env[x]])
     \/ (walked \/ Rejected(P)) /\ Raise
ClusterNext == (\E n \in NodeNames(P) : Send(n) \/ (n \in Executed(P) /\ Ready(n) /\ Work(n))) \/ EndWalk \/ Gather
(* at the end nothing was run that was not sent, and what was sent is what was needed *)
OnlySentRuns == called \subseteq sent
SentIsNeeded == sent \subseteq Executed(P)
=============================================================================
