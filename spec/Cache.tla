-------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* Result caching across runs.  Persistent state:                          *)
(*   meta  key -> version     what the metadata store knows                *)
(*   res   versions whose result is in the result store                    *)
(*   bad   versions whose stored result is unreadable (corrupted)          *)
(*   unc   versions touched by a crash: present, absent or torn            *)
(* A version stands for the value it fingerprints.  A key is               *)
(*   <<node, code version, argument versions>>; an argument whose node is  *)
(*   IGNOREd contributes nothing; one that is DISABLEd makes the key fresh *)
(*   (NoKey), it can never be found again.                                 *)
(***************************************************************************)
EXTENDS ParDen
CONSTANT NoKey, Ignored
VARIABLES meta, res, bad, unc
cachevars == <<meta, res, bad, unc>>
CacheInit == meta = EmptyFn /\ res = {} /\ bad = {} /\ unc = {}

(* Which behaviour applies to a node: expanders always recompute; the driver's
   word beats the decorator's, which beats the default.                       *)
Behaviour(b, n, kind) ==
  IF kind = "expand" THEN "recompute"
  ELSE IF b.all # "" THEN b.all
  ELSE IF n \in DOMAIN b.sets THEN b.sets[n]
  ELSE IF n \in DOMAIN b.tags THEN b.tags[n]
  ELSE IF kind = "loader" THEN b.loader
  ELSE b.dflt

KeyOf(n, cv, args, Beh(_)) ==
  IF \E p \in DOMAIN args : Beh(p) = "disable" THEN NoKey
  ELSE <<n, cv, [p \in DOMAIN args |-> IF Beh(p) = "ignore" THEN Ignored ELSE args[p]]>>

Known(key)       == key # NoKey /\ key \in DOMAIN meta
Retrievable(key) == Known(key) /\ meta[key] \in res                    \* may be served from the cache
Sure(key)        == Retrievable(key) /\ meta[key] \notin bad \cup unc   \* must be served from the cache

\* a DEFAULT or RECOMPUTE node ran and produced v
Store(key, v, beh) ==
  IF beh \notin {"default", "recompute"} THEN UNCHANGED cachevars
  ELSE LET broken == beh = "default" /\ Known(key) /\ meta[key] \in bad      \* unreadable entry is dropped first
           old == IF broken THEN {meta[key]} ELSE {}
       IN /\ meta' = (IF key = NoKey THEN meta ELSE (key :> v) @@ meta)
          /\ res' = (res \ old) \cup {v}
          /\ bad' = bad \ old
          /\ UNCHANGED unc
\* faults
DropResult(v)  == res' = res \ {v} /\ bad' = bad \ {v} /\ UNCHANGED <<meta, unc>>
Corrupt(v)     == bad' = (IF v \in res THEN bad \cup {v} ELSE bad) /\ UNCHANGED <<meta, res, unc>>
DropMeta(n)    == meta' = [k \in {k \in DOMAIN meta : k[1] # n} |-> meta[k]] /\ UNCHANGED <<res, bad, unc>>
DropAllMeta    == meta' = EmptyFn /\ UNCHANGED <<res, bad, unc>>
DropAllResults == res' = {} /\ bad' = {} /\ UNCHANGED <<meta, unc>>
\* a crash while entries (key,v) were being written
CrashDuring(E) ==
  /\ meta' = [k \in {x[1] : x \in E} \ {NoKey} |-> (CHOOSE x \in E : x[1] = k)[2]] @@ meta
  /\ res' = res \cup {x[2] : x \in E}
  /\ unc' = unc \cup {x[2] : x \in E}
  /\ UNCHANGED bad
=============================================================================
