------------------------------ MODULE CacheTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of cached executions of the real code      *)
(* against Cache.  One trace = one history on one cache:                   *)
(*  [ev|->"run", p, b, mode]   a request starts.  mode "seq": one thing at *)
(*      a time; "conc": other processes use the cache at the same time;    *)
(*      "block": a program with parallel blocks on any engine              *)
(*  [ev|->"call", n, args, out]  a node function was called (-2: raised)   *)
(*  [ev|->"return", res] [ev|->"raise", who] [ev|->"crash"]                *)
(*  [ev|->"log", exec, got]    what the cache's own log says of the run    *)
(*  [ev|->"behav", beh]        the behaviours the cache resolved           *)
(*  [ev|->"probe", has]        value code -> is its result in the store    *)
(*  [ev|->"fork"] .. [ev|->"join", vs]   concurrent processes              *)
(*  faults: dropres v, corrupt v, dropmeta n, dropallmeta, dropallres      *)
(* Nodes that were needed but not called must have come out of the cache:  *)
(* their value is what the specification's cache holds for their key.      *)
(***************************************************************************)
EXTENDS Cache, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES P, b, mode, env, called, failed, outcome, snap, fresh, last, calls, D, tid, l, err
runvars == <<P, b, mode, env, called, failed, outcome, snap, last, calls, D>>
tvars == <<cachevars, runvars, fresh, tid, l, err>>
Ev == Traces[tid].ev
e == Ev[l]
NoD == [env |-> EmptyFn, seqs |-> EmptyFn, args |-> EmptyFn, badcalls |-> EmptyFn, poison |-> FALSE]
NoEntry == [key |-> NoKey, v |-> -1]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ err = "" /\ CacheInit
        /\ P = [nodes |-> EmptyFn] /\ b = EmptyFn /\ mode = "" /\ env = EmptyFn /\ called = {} /\ failed = {}
        /\ outcome = "idle" /\ snap = {} /\ fresh = {} /\ last = NoEntry /\ calls = <<>> /\ D = NoD

KindOf(n) == IF n \in DOMAIN P.nodes /\ "kind" \in DOMAIN P.nodes[n] THEN P.nodes[n].kind ELSE "plain"
Beh(n) == Behaviour(b, n, KindOf(n))
Key(n, args) == KeyOf(n, P.nodes[n].cv, args, Beh)
Impure(n) == "imp" \in DOMAIN P.nodes[n]

\* ---- plain programs: fill in what must have been retrieved
\* in "conc" mode a sibling process may have stored it; then only a pure value can be trusted
CanRetrieve(n, args) ==
  /\ Beh(n) = "default"
  /\ IF mode = "conc" THEN Key(n, args) # NoKey ELSE Retrievable(Key(n, args)) /\ meta[Key(n, args)] \notin bad
Retrieved(n, args) == IF mode = "conc" THEN Apply(P.nodes[n], args) ELSE meta[Key(n, args)]
RECURSIVE Resolve(_,_,_)
Resolve(want, i, en) ==
  IF i > Len(P.order) THEN en
  ELSE LET n == P.order[i] IN
       IF n \notin want \/ n \in called \/ n \in DOMAIN en \/ n \notin Executed(P)
          \/ ~(UsedParams(P,n) \subseteq DOMAIN en) \/ ~CanRetrieve(n, ArgsOf(P,n,en))
       THEN Resolve(want, i+1, en)
       ELSE Resolve(want, i+1, (n :> Retrieved(n, ArgsOf(P,n,en))) @@ en)
Above(n) == CloseUp(P, {n}, {}) \ {n}

\* Sure entries, as far as the moment of the lookup can be known
SureAtLookup(key) == IF mode = "seq" THEN Sure(key) ELSE key \in snap

CallClauseSeq(en) ==
  LET n == e.n IN
  IF n \in called THEN "executed-twice"
  ELSE IF ~(UsedParams(P,n) \subseteq DOMAIN en) THEN "argument-neither-computed-nor-cached"
  ELSE IF DOMAIN e.args # ParamSet(P,n) \/ e.args # ArgsOf(P,n,en) THEN "wrong-argument-value"
  ELSE IF Beh(n) = "default" /\ SureAtLookup(Key(n, e.args)) THEN "executed-although-cached"
  ELSE IF n \notin Fails(P) /\ ~Impure(n) /\ e.out # Apply(P.nodes[n], e.args) THEN "recorder"
  ELSE ""
\* ---- block programs: the denotation says which calls are owed
Owed(n) == IF n \in DOMAIN D.args THEN D.args[n] ELSE <<>>
CountIn(s, a) == Cardinality({j \in 1..Len(s) : s[j] = a})
Made(n) == SelectSeq(calls, LAMBDA c : c[1] = n)
MadeCount(n, a) == Cardinality({j \in 1..Len(calls) : calls[j][1] = n /\ calls[j][2] = a})
CallClauseBlock ==
  LET n == e.n IN
  IF n \notin DOMAIN D.args \/ DOMAIN e.args # ParamSet(P,n) THEN "wrong-argument-value"
  ELSE IF CountIn(Owed(n), e.args) = 0 THEN "wrong-argument-value"
  ELSE IF MadeCount(n, e.args) >= CountIn(Owed(n), e.args) THEN "executed-twice"
  ELSE IF Beh(n) = "default" /\ Key(n, e.args) \in snap THEN "executed-although-cached"
  ELSE ""
CallClause(en) ==
  IF outcome # "running" THEN "call-after-answer"
  ELSE IF e.n \notin DOMAIN P.nodes \/ e.n \in Overrides(P) \/ e.n \notin (IF mode = "block" THEN ExecutedP(P) ELSE Executed(P))
       THEN "unneeded-node-called"
  ELSE IF mode = "block" THEN CallClauseBlock ELSE CallClauseSeq(en)

\* value of one owed call in a block program
ValOf(n, a) ==
  LET nd == P.nodes[n] IN
  IF nd.kind = "collect"
  THEN LET rest == [q \in ParamSet(P,n) \ {nd.cparam} |-> a[q]]
           sm == SumArgs(SelectSeq(nd.params, LAMBDA q : q # nd.cparam), nd.k, rest, 1)
       IN Fold(a[nd.cparam], 1, (nd.c + sm) % nd.m, nd.m)
  ELSE Apply(nd, a)
BlockUnserved ==     \* owed, not made, and not to be had from the cache either
  {n \in DOMAIN D.args : \E j \in 1..Len(Owed(n)) :
     LET a == Owed(n)[j] IN
     /\ MadeCount(n, a) < CountIn(Owed(n), a)
     /\ ~(Beh(n) = "default" /\ Retrievable(Key(n,a)) /\ meta[Key(n,a)] = ValOf(n,a) /\ meta[Key(n,a)] \notin bad)}
ResultOfB(x) == IF x \in DOMAIN D.seqs THEN D.seqs[x] ELSE D.env[x]

ReturnClause(en) ==
  IF outcome # "running" THEN "second-answer"
  ELSE IF mode = "block" THEN
       (IF D.poison \/ failed # {} THEN "failure-swallowed"
        ELSE IF DOMAIN e.res # Final(P) THEN "wrong-result-keys"
        ELSE IF \E x \in Final(P) : e.res[x] # ResultOfB(x) THEN "wrong-result-value"
        ELSE IF \E n \in BlockUnserved : Beh(n) # "default" THEN "not-executed-although-behaviour-demands"
        ELSE IF BlockUnserved # {} THEN "not-executed-and-not-in-cache"
        ELSE "")
  ELSE
    LET lost == Executed(P) \ DOMAIN en IN
    IF failed # {} THEN "failure-swallowed"
    ELSE IF \E n \in Executed(P) \ called : Beh(n) # "default" THEN "not-executed-although-behaviour-demands"
    ELSE IF lost # {} THEN "not-executed-and-not-in-cache"
    ELSE IF DOMAIN e.res # Final(P) THEN "wrong-result-keys"
    ELSE IF \E x \in Final(P) : e.res[x] # en[x] THEN "wrong-result-value"
    ELSE ""
RaiseClause ==
  IF outcome # "running" THEN "second-answer"
  ELSE IF failed = {} THEN "caching-raised"
  ELSE IF e.who \notin failed THEN "wrong-error-raised"
  ELSE ""
\* what the cache's log must say: executed = the calls that succeeded; retrieved = the rest
LogClause ==
  IF outcome \notin {"returned"} THEN ""
  ELSE IF mode = "block" THEN ""
  ELSE IF RangeOf(e.exec) # called \/ Len(e.exec) # Cardinality(called) THEN "log-wrong-executions"
  ELSE IF RangeOf(e.got) # Executed(P) \ called THEN "log-wrong-retrievals"
  ELSE ""
BehavClause ==
  IF \E n \in DOMAIN e.beh : e.beh[n] # Beh(n) THEN "wrong-behaviour-resolved" ELSE ""
ProbeClause ==
  IF \E i \in 1..Len(e.has) : e.has[i].v \in res \ unc /\ ~e.has[i].in THEN "result-not-stored"
  ELSE IF \E i \in 1..Len(e.has) : e.has[i].v \notin res /\ e.has[i].in THEN "result-stored-although-not-to-be-cached"
  ELSE ""
Clause(en) ==
  CASE e.ev = "run"    -> IF outcome = "running" THEN "recorder" ELSE ""
    [] e.ev = "call"   -> CallClause(en)
    [] e.ev = "return" -> ReturnClause(en)
    [] e.ev = "raise"  -> RaiseClause
    [] e.ev = "log"    -> LogClause
    [] e.ev = "behav"  -> BehavClause
    [] e.ev = "probe"  -> ProbeClause
    [] e.ev = "hang"   -> "did-not-terminate"
    [] e.ev \in {"crash", "fork", "join", "dropres", "corrupt", "dropmeta", "dropallmeta", "dropallres"} -> ""
    [] OTHER           -> "unexpected-event-" \o e.ev
\* values known after this event
Env2 == IF mode = "block" \/ outcome # "running" THEN env
        ELSE IF e.ev = "call" /\ e.n \in DOMAIN P.nodes THEN Resolve(Above(e.n), 1, env)
        ELSE IF e.ev = "return" THEN Resolve(Executed(P), 1, env)
        ELSE env

DoRun ==
  /\ P' = e.p /\ b' = e.b /\ mode' = e.mode /\ outcome' = "running" /\ called' = {} /\ failed' = {} /\ calls' = <<>>
  /\ env' = BaseEnv(e.p) /\ last' = NoEntry
  /\ D' = (IF e.mode = "block" THEN DenotePar(e.p) ELSE NoD)
  /\ snap' = (IF e.mode = "conc" THEN snap ELSE {k \in DOMAIN meta : Sure(k)})
  /\ UNCHANGED <<cachevars, fresh>>
DoCall(en) ==
  LET key == Key(e.n, e.args) IN
  /\ called' = called \cup {e.n}
  /\ calls' = (IF mode = "block" THEN Append(calls, <<e.n, e.args>>) ELSE calls)
  /\ UNCHANGED <<P, b, mode, outcome, snap, D>>
  /\ IF e.out = -2
     THEN /\ failed' = failed \cup {e.n} /\ env' = en /\ last' = NoEntry
          /\ LET broken == Beh(e.n) = "default" /\ Known(key) /\ meta[key] \in bad IN
             /\ res' = (IF broken THEN res \ {meta[key]} ELSE res)
             /\ bad' = (IF broken THEN bad \ {meta[key]} ELSE bad)
             /\ meta' = (IF broken \/ (Beh(e.n) = "default" /\ Known(key) /\ meta[key] \in unc)
                         THEN [k \in DOMAIN meta \ {key} |-> meta[k]] ELSE meta)
             /\ UNCHANGED <<unc, fresh>>
     ELSE /\ failed' = failed
          /\ env' = (IF mode = "block" THEN env ELSE (e.n :> e.out) @@ en)
          /\ IF KindOf(e.n) = "expand" \/ Beh(e.n) \notin {"default", "recompute"}
             THEN UNCHANGED <<cachevars, fresh>> /\ last' = NoEntry
             ELSE /\ last' = [key |-> key, v |-> e.out]
                  /\ fresh' = (IF key = NoKey THEN fresh ELSE fresh \cup {key})
                  /\ LET mended == Beh(e.n) = "default" /\ key \in fresh /\ Known(key) /\ meta[key] = e.out /\ e.out \in unc IN
                     /\ unc' = (IF mended THEN unc \ {e.out} ELSE unc)
                     /\ LET broken == Beh(e.n) = "default" /\ Known(key) /\ meta[key] \in bad
                            old == IF broken THEN {meta[key]} ELSE {}
                        IN /\ meta' = (IF key = NoKey THEN meta ELSE (key :> e.out) @@ meta)
                           /\ res' = (res \ old) \cup {e.out}
                           /\ bad' = bad \ old
Fault ==
  \/ e.ev = "dropres"     /\ DropResult(e.v) /\ UNCHANGED <<fresh>>
  \/ e.ev = "corrupt"     /\ Corrupt(e.v) /\ UNCHANGED <<fresh>>
  \/ e.ev = "dropmeta"    /\ DropMeta(e.n) /\ UNCHANGED <<fresh>>
  \/ e.ev = "dropallmeta" /\ DropAllMeta /\ UNCHANGED <<fresh>>
  \/ e.ev = "dropallres"  /\ DropAllResults /\ UNCHANGED <<fresh>>
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET en == Env2
         c == Clause(en)
     IN
     IF c # "" THEN err' = c /\ UNCHANGED <<cachevars, runvars, fresh, tid, l>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<err, tid>>
          /\ \/ e.ev = "run" /\ DoRun
             \/ e.ev = "call" /\ DoCall(en)
             \/ /\ e.ev \in {"return", "raise"}
                /\ outcome' = (IF e.ev = "return" THEN "returned" ELSE "raised") /\ env' = en
                /\ UNCHANGED <<cachevars, fresh, P, b, mode, called, failed, snap, last, calls, D>>
             \/ e.ev \in {"log", "behav", "probe"} /\ UNCHANGED <<cachevars, fresh, runvars>>
             \/ /\ e.ev = "crash"        \* the entry being written is torn: present, absent or unreadable
                /\ outcome' = "crashed"
                /\ unc' = unc \cup (IF last.v = -1 THEN {} ELSE {last.v})
                /\ fresh' = {}
                /\ UNCHANGED <<meta, res, bad, P, b, mode, env, called, failed, snap, last, calls, D>>
             \/ /\ e.ev = "fork"         \* several processes start on this cache
                /\ snap' = {k \in DOMAIN meta : Sure(k)}
                /\ UNCHANGED <<cachevars, fresh, P, b, mode, env, called, failed, outcome, last, calls, D>>
             \/ /\ e.ev = "join"         \* everything concurrent processes wrote may have been torn by each other
                /\ unc' = unc \cup {e.vs[i] : i \in 1..Len(e.vs)}
                /\ fresh' = {}
                /\ UNCHANGED <<meta, res, bad, runvars>>
             \/ /\ e.ev \in {"dropres", "corrupt", "dropmeta", "dropallmeta", "dropallres"}
                /\ Fault /\ UNCHANGED runvars
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE IF outcome = "running" THEN "no-answer" ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<cachevars, runvars, fresh, tid, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
