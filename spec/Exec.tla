-------------------------------- MODULE Exec --------------------------------
(***************************************************************************)
(* One request executed against a dataflow program, at the level of        *)
(* individual function calls.  Any engine (in-memory, task based, async)   *)
(* must refine this machine: every function call it makes is a `Call`      *)
(* step, its answer is a `Return` or `Raise` step.                         *)
(***************************************************************************)
EXTENDS Dataflow

VARIABLES P,        \* the program and request (never changes)
          env,      \* values known so far
          called,   \* nodes whose function has been called
          failed,   \* nodes whose function raised
          outcome   \* "running" | "returned" | "raised"
execvars == <<P, env, called, failed, outcome>>

ExecInit(Progs) ==
  /\ P \in Progs
  /\ env = BaseEnv(P)
  /\ called = {}
  /\ failed = {}
  /\ outcome = "running"

Ready(n) == n \in Executed(P) \ called /\ UsedParams(P,n) \subseteq DOMAIN env

CallOk(n,args,out) ==
  /\ outcome = "running" /\ ~Rejected(P)
  /\ Ready(n) /\ n \notin Fails(P)
  /\ args = ArgsOf(P,n,env)
  /\ out = Apply(P.nodes[n], args)
  /\ env' = (n :> out) @@ env
  /\ called' = called \cup {n}
  /\ UNCHANGED <<P, failed, outcome>>

CallFail(n,args) ==
  /\ outcome = "running" /\ ~Rejected(P)
  /\ Ready(n) /\ n \in Fails(P)
  /\ args = ArgsOf(P,n,env)
  /\ called' = called \cup {n}
  /\ failed' = failed \cup {n}
  /\ UNCHANGED <<P, env, outcome>>

Return(res) ==
  /\ outcome = "running" /\ ~Rejected(P)
  /\ failed = {}
  /\ called = Executed(P)
  /\ res = [x \in Final(P) |-> env[x]]
  /\ outcome' = "returned"
  /\ UNCHANGED <<P, env, called, failed>>

\* A rejected request raises before anything ran; a failed call makes the request raise.
Raise ==
  /\ outcome = "running"
  /\ \/ Rejected(P) /\ called = {}
     \/ failed # {}
  /\ outcome' = "raised"
  /\ UNCHANGED <<P, env, called, failed>>

ExecNext ==
  \/ \E n \in NodeNames(P) :
        \/ Ready(n) /\ CallOk(n, ArgsOf(P,n,env), Apply(P.nodes[n], ArgsOf(P,n,env)))
        \/ Ready(n) /\ CallFail(n, ArgsOf(P,n,env))
  \/ ~Rejected(P) /\ Final(P) \subseteq DOMAIN env /\ Return([x \in Final(P) |-> env[x]])
  \/ Raise

(* ---- properties of the design ---- *)
ValuesRight  == \A n \in called \ failed : env[n] = Denote(P)[n]
OnlyNeeded   == called \subseteq Executed(P)
NothingIfRejected == Rejected(P) => called = {}
OverridesNeverRun == called \cap Overrides(P) = {}
DownstreamOfFailureNotRun ==
  \A n \in called : \A f \in failed : f \notin CloseUp(P, {n}, {}) \ {n}
ReturnedComplete == outcome = "returned" => \A x \in Final(P) : env[x] = Denote(P)[x]
EventuallyAnswers == <>(outcome # "running")
=============================================================================
