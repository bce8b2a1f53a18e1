------------------------------ MODULE IOTrace ------------------------------
(* Validates recorded sessions with loaders, savers and materializers. *)
EXTENDS IO, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err, G
tvars == <<tid, l, err, G>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = "" /\ G = NoFn
(* what was called: a bag given as a sequence of texts; wanted: one call per node *)
CallsErr(H, F) ==
  LET C == Calls(T, H, F, e.ins, e.ovr)
      W == {<<n, Val(T, H, e.ins, e.ovr, n)>> : n \in C}
      cnt(t) == Cardinality({i \in DOMAIN e.calls : e.calls[i] = t})
      wnt(t) == Cardinality({w \in W : w[2] = t})
      texts == {w[2] : w \in W} \cup Rng(e.calls)
      more == {t \in texts : cnt(t) > wnt(t)}
      less == {t \in texts : cnt(t) < wnt(t)} IN
  IF more # {} THEN (IF \E t \in more : wnt(t) = 0 THEN "called-something-else" ELSE "called-more-than-once")
  ELSE IF less # {} THEN "not-called" ELSE ""
(* an outside name only replaced nodes asked for: whether it still counts as a node is left open *)
Left(H) == Nodes(T, FromDecls(T, Len(T.decls))) \ Nodes(T, H)
OpenMats(H, ms) == \E i \in DOMAIN ms : (IF ms[i].k = "to" THEN Rng(ms[i].deps) ELSE {ms[i].target}) \cap Left(H) # {}
(* who watches executions is told of each exactly once, also of those that fail after they began *)
HooksErr == IF ~T.hooked THEN ""
            ELSE IF e.ok THEN (IF e.hooks # (IF e.ev = "val" THEN <<>> ELSE <<"pre", "post ok">>) THEN "watchers-not-told" ELSE "")
            ELSE IF e.err = "UnboundLocalError" THEN "error-masked"
            ELSE IF e.hooks \notin {<<>>, <<"pre", "post failed">>} THEN "watchers-told-wrong" ELSE ""
Clause1 ==
  CASE e.ev = "built" ->
         LET good == ProgOK(T) /\ MatsOK(T, FromDecls(T, Len(T.decls)), e.mats) IN
         IF e.ok /\ ~good THEN "invalid-declaration-accepted" ELSE IF ~e.ok /\ good THEN "valid-declaration-refused" ELSE ""
    [] e.ev = "names" ->
         IF ~(Nodes(T, G) \subseteq Rng(e.names)) \/ ~(Rng(e.names) \subseteq Nodes(T, G) \cup Nodes(T, FromDecls(T, Len(T.decls)))) THEN "nodes-wrong" ELSE ""
    [] e.ev = "run" ->
         LET F == Rng(e.final) IN
         IF Lacks(T, G, F, e.ins, e.ovr) THEN (IF e.ok THEN "impossible-request-answered" ELSE IF e.calls # <<>> THEN "ran-although-impossible" ELSE "")
         ELSE IF ~e.ok THEN "request-raised"
         ELSE IF DOMAIN e.res # F THEN "result-keys-wrong"
         ELSE IF \E x \in F : e.res[x] # Val(T, G, e.ins, e.ovr, x) THEN "result-wrong"
         ELSE CallsErr(G, F)
    [] e.ev \in {"mat", "val"} /\ OpenMats(G, e.mats) -> ""
    [] e.ev \in {"mat", "val"} ->
         LET ok1 == MatsOK(T, G, e.mats)
             H == IF ok1 THEN With(T, G, e.mats) ELSE G
             ids == {Tos(e.mats)[i].id : i \in DOMAIN Tos(e.mats)}
             F == Rng(e.final) \cup ids
             good == ok1 /\ (e.ev = "mat" => F # {}) /\ ~Lacks(T, H, F, e.ins, e.ovr) IN
         IF ~good THEN (IF e.ok THEN "impossible-materialization-accepted" ELSE IF e.calls # <<>> THEN "ran-although-impossible" ELSE "")
         ELSE IF ~e.ok THEN "materialization-raised"
         ELSE IF e.ev = "val" THEN (IF e.calls # <<>> THEN "validation-ran-something" ELSE "")
         ELSE IF DOMAIN e.meta # ids \/ DOMAIN e.res # Rng(e.final) THEN "result-keys-wrong"
         ELSE IF \E x \in ids : e.meta[x] # Val(T, H, e.ins, e.ovr, x) THEN "metadata-wrong"
         ELSE IF \E x \in Rng(e.final) : e.res[x] # Val(T, H, e.ins, e.ovr, x) THEN "result-wrong"
         ELSE CallsErr(H, F)
    [] OTHER -> "unexpected-event"
Clause == LET c == Clause1 IN IF c # "" THEN c ELSE IF e.ev \in {"run", "mat", "val"} THEN HooksErr ELSE ""
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<tid, l, G>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
          /\ G' = IF e.ev = "built" /\ e.ok THEN With(T, FromDecls(T, Len(T.decls)), e.mats) ELSE G
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err, G>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
