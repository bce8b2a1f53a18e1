----------------------------- MODULE StoresTrace -----------------------------
(* recorded operations (op, arguments, result) of real stores against Stores *)
EXTENDS Stores, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err
tvars == <<storevars, tid, l, err>>
Ev == Traces[tid].ev
e == Ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = "" /\ StoreInit
Mutators == {"init", "set", "delete", "delete_all", "rset", "rdelete", "rdelete_all", "copymeta", "copyres", "reopen", "rexpire"}
Clause ==
  CASE e.ev \in Mutators -> IF e.out # "ok" THEN "operation-raised" ELSE ""
    [] e.ev = "get"     -> IF e.out # (IF e.k \in DOMAIN mm THEN mm[e.k] ELSE "none") THEN "wrong-data-version" ELSE ""
    [] e.ev = "exists"  -> IF e.out # (IF e.k \in DOMAIN mm THEN "true" ELSE "false") THEN "wrong-existence" ELSE ""
    [] e.ev = "len"     -> IF e.out # Cardinality(DOMAIN mm) THEN "wrong-length" ELSE ""
    [] e.ev = "run_ids" -> IF e.out # runs THEN "wrong-run-ids" ELSE ""
    [] e.ev = "last_run"-> IF e.out # (IF runs = <<>> THEN "none" ELSE runs[Len(runs)]) THEN "wrong-run-ids" ELSE ""
    [] e.ev = "get_run" -> IF ~KnownRun(e.r) THEN (IF e.err # "IndexError" THEN "unknown-run-not-reported" ELSE "")
                           ELSE IF e.err # "" THEN "operation-raised"
                           ELSE IF ~SameBag(e.out, RunRows(e.r)) THEN "wrong-run-metadata" ELSE ""
    [] e.ev = "rget"    -> IF e.out # (IF e.v \in DOMAIN rr THEN rr[e.v] ELSE -3) THEN "wrong-result" ELSE ""
    [] e.ev = "rexists" -> IF e.out # (IF e.v \in DOMAIN rr THEN "true" ELSE "false") THEN "wrong-existence" ELSE ""
    [] OTHER -> "unexpected-event-" \o e.ev
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ IF Clause # "" THEN err' = Clause /\ UNCHANGED <<storevars, tid, l>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
          /\ \/ e.ev = "init" /\ InitRun(e.r)
             \/ e.ev = "set" /\ SetMeta(e.r, e.k, e.v)
             \/ e.ev = "delete" /\ DelMeta(e.k)
             \/ e.ev = "delete_all" /\ DelAllMeta
             \/ e.ev = "rset" /\ SetRes(e.v, e.c)
             \/ e.ev = "rdelete" /\ DelRes(e.v)
             \/ e.ev = "rdelete_all" /\ DelAllRes
             \/ e.ev = "copymeta" /\ CopyMeta
             \/ e.ev = "copyres" /\ CopyRes
             \/ e.ev \in {"reopen", "rexpire", "get", "exists", "len", "run_ids", "last_run", "get_run", "rget", "rexists"}
                /\ UNCHANGED storevars
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<storevars, tid, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
