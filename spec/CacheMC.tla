------------------------------- MODULE CacheMC ------------------------------
(* Design check of the caching discipline: a chain  i -> a -> b -> c (c also uses a), all code edits, inputs,
   behaviours, losses, corruptions and crashes, over several runs.                                        *)
EXTENDS Cache
CONSTANTS MaxRuns, MaxFaults, Inputs, Codes, Behs
VARIABLES run, runs, faults, todo, env, ran, why
mcvars == <<cachevars, run, runs, faults, todo, env, ran, why>>
Nodes == {"a", "b", "c"}
Deps(n) == CASE n = "a" -> {"i"} [] n = "b" -> {"a"} [] OTHER -> {"a", "b"}
\* deterministic functions, deliberately not injective, so that equal values appear under different keys
F(n, cv, args) == CASE n = "a" -> (args["i"] + cv) % 2
                    [] n = "b" -> (args["a"] * cv) % 3
                    [] OTHER -> (args["a"] + args["b"] + cv) % 3
NoRun == [i |-> 0, cv |-> [n \in Nodes |-> 1], beh |-> [n \in Nodes |-> "default"], on |-> FALSE]
Init == CacheInit /\ run = NoRun /\ runs = 0 /\ faults = 0 /\ todo = {} /\ env = EmptyFn /\ ran = {} /\ why = EmptyFn
Start == /\ ~run.on /\ runs < MaxRuns
         /\ \E i \in Inputs, cv \in [Nodes -> Codes], m \in Nodes, be \in Behs :
              run' = [i |-> i, cv |-> cv, beh |-> [n \in Nodes |-> IF n = m THEN be ELSE "default"], on |-> TRUE]
         /\ runs' = runs + 1 /\ todo' = Nodes /\ env' = ("i" :> run'.i) /\ ran' = {} /\ why' = EmptyFn
         /\ UNCHANGED <<cachevars, faults>>
Args(n) == [p \in Deps(n) |-> env[p]]
Beh(p)  == IF p = "i" THEN "default" ELSE run.beh[p]
K(n)    == KeyOf(n, run.cv[n], Args(n), Beh)
Ready(n) == n \in todo /\ Deps(n) \subseteq DOMAIN env
Exec(n) ==
  /\ run.on /\ Ready(n) /\ (run.beh[n] # "default" \/ ~Sure(K(n)))
  /\ LET v == F(n, run.cv[n], Args(n)) IN
     /\ env' = (n :> v) @@ env /\ Store(K(n), v, run.beh[n])
     /\ why' = (n :> IF run.beh[n] # "default" THEN run.beh[n]
                     ELSE IF ~Known(K(n)) THEN "unknown" ELSE "lost") @@ why
  /\ ran' = ran \cup {n} /\ todo' = todo \ {n} /\ UNCHANGED <<run, runs, faults>>
Retrieve(n) ==
  /\ run.on /\ Ready(n) /\ run.beh[n] = "default" /\ Retrievable(K(n)) /\ meta[K(n)] \notin bad
  /\ env' = (n :> meta[K(n)]) @@ env
  /\ todo' = todo \ {n} /\ UNCHANGED <<cachevars, run, runs, faults, ran, why>>
Finish == run.on /\ todo = {} /\ run' = [run EXCEPT !.on = FALSE] /\ UNCHANGED <<cachevars, runs, faults, todo, env, ran, why>>
Fault == /\ faults < MaxFaults /\ faults' = faults + 1
         /\ \/ ~run.on /\ \E v \in 0..2 : (DropResult(v) \/ Corrupt(v)) /\ UNCHANGED <<run, runs, todo, env, ran, why>>
            \/ ~run.on /\ (DropAllMeta \/ \E n \in Nodes : DropMeta(n)) /\ UNCHANGED <<run, runs, todo, env, ran, why>>
            \/ run.on /\ run' = [run EXCEPT !.on = FALSE] /\ todo' = {} /\ env' = EmptyFn /\ ran' = {} /\ why' = EmptyFn /\ runs' = runs
               /\ \E n \in {n \in todo : Ready(n)} :
                    CrashDuring(IF run.beh[n] \in {"default","recompute"} THEN {<<K(n), F(n, run.cv[n], Args(n))>>} ELSE {})
Next == Start \/ (\E n \in Nodes : Exec(n) \/ Retrieve(n)) \/ Finish \/ Fault
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(\E n \in Nodes : Exec(n) \/ Retrieve(n)) /\ WF_mcvars(Finish)
-----------------------------------------------------------------------------
Truth == LET a == F("a", run.cv["a"], ("i" :> run.i)) b == F("b", run.cv["b"], ("a" :> a))
         IN ("i" :> run.i) @@ ("a" :> a) @@ ("b" :> b) @@ ("c" :> F("c", run.cv["c"], ("a" :> a) @@ ("b" :> b)))
IgnoredSomewhere == \E k \in DOMAIN meta : Ignored \in {k[3][p] : p \in DOMAIN k[3]}
\* the cache never changes a value, as long as nothing was IGNOREd
Transparent == (run.on /\ ~IgnoredSomewhere /\ "ignore" \notin {run.beh[n] : n \in Nodes})
                 => \A n \in DOMAIN env : env[n] = Truth[n]
\* a key is only ever associated with the value its function gives on its arguments
Sound == \A k \in DOMAIN meta : (\A p \in DOMAIN k[3] : k[3][p] # Ignored) => meta[k] = F(k[1], k[2], k[3])
\* a DEFAULT node runs only for a reason
Justified == \A n \in DOMAIN why : run.beh[n] = "default" => why[n] \in {"unknown", "lost"}
\* below a DISABLEd node nothing is found
DisableForces == run.on => \A n \in Nodes : (n \notin todo /\ \E p \in Deps(n) : Beh(p) = "disable") => n \in ran
EventuallyAnswers == run.on ~> ~run.on
=============================================================================
