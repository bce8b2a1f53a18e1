--------------------------- MODULE AdaptersTrace ---------------------------
(* Validates recorded runs: under the error adapter (C22), or with observing adapters attached (C23). *)
EXTENDS Adapters, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err
tvars == <<tid, l, err>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = ""
Cnt(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
More(a, b) == \E x \in Rng(a) : Cnt(a, x) > Cnt(b, x)
Same(a, b) == ~More(a, b) /\ ~More(b, a)
RunClause ==
  LET r == Run(T, T.cfg, e) IN
  IF r.errs # {} THEN
    (IF e.ok THEN "error-swallowed" ELSE IF e.err \notin r.errs THEN "other-error-raised"
     ELSE IF More(e.calls, r.calls) THEN "called-more-than-owed" ELSE "")
  ELSE IF ~e.ok THEN "raised"
  ELSE IF DOMAIN e.res # Rng(e.final) THEN "result-keys-wrong"
  ELSE IF \E x \in Rng(e.final) : e.res[x] # r.env[x] THEN "result-wrong"
  ELSE IF More(e.calls, r.calls) THEN "called-more-than-owed"
  ELSE IF More(r.calls, e.calls) THEN "not-called"
  ELSE ""
(* an observer's report: begun, ended (sequences of texts), complete unless something failed *)
Told(w) ==
  LET r == Run(T, T.cfg, e)
      real == SelectSeq(r.ran, LAMBDA x : x[2] # "Skipped" /\ (w.all \/ x[1] \in Rng(w.names)))
      beg == [i \in DOMAIN real |-> real[i][1]]
      fin == [i \in DOMAIN real |-> real[i][1] \o " " \o real[i][2]]
      bad == SelectSeq(real, LAMBDA x : x[2] = "Failure") IN
  CASE w.kind = "print" ->
         IF r.errs = {} THEN (IF ~Same(w.beg, beg) THEN "begin-not-told" ELSE IF ~Same(w.fin, fin) THEN "end-not-told" ELSE IF ~w.nested THEN "told-out-of-order" ELSE "")
         ELSE IF More(w.beg, beg) \/ More(w.fin, fin) THEN "told-what-did-not-happen"
         ELSE IF ~Same(w.beg, [i \in DOMAIN w.fin |-> w.ends[i]]) THEN "end-not-told" ELSE IF ~w.nested THEN "told-out-of-order" ELSE ""
    [] w.kind = "span" ->
         IF w.graphs # <<IF e.ok THEN "OK" ELSE "ERROR">> THEN "run-not-told"
         ELSE IF r.errs = {} THEN (IF ~Same(w.fin, fin) THEN "end-not-told" ELSE IF ~w.nested THEN "told-out-of-order" ELSE "")
         ELSE IF More(w.fin, fin) THEN "told-what-did-not-happen" ELSE IF ~w.nested THEN "told-out-of-order" ELSE ""
    [] w.kind = "alarm" ->
         IF More(w.fin, [i \in DOMAIN bad |-> bad[i][1]]) THEN "told-what-did-not-happen"
         ELSE IF r.errs # {} /\ w.fin = <<>> THEN "failure-not-told" ELSE ""
    [] w.kind = "lineage" -> IF w.fin # <<"START", IF e.ok THEN "COMPLETE" ELSE "FAIL">> THEN "run-not-told" ELSE ""
    [] OTHER -> "unexpected-observer"
Clause ==
  CASE e.ev = "run" ->
         LET c == RunClause IN IF c # "" THEN c ELSE
         LET bad == {Told(e.seen[i]) : i \in DOMAIN e.seen} \ {""} IN IF bad = {} THEN "" ELSE CHOOSE c2 \in bad : TRUE
    [] OTHER -> "unexpected-event"
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN IF c # "" THEN err' = c /\ UNCHANGED <<tid, l>> ELSE l' = l + 1 /\ UNCHANGED <<tid, err>>
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
