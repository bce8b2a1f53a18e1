----------------------------- MODULE SessTrace -----------------------------
(***************************************************************************)
(* Validates recorded sessions with builders, drivers and questions about  *)
(* the built graphs.  T.mods: module |-> functions.                        *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err, bs, ds
tvars == <<tid, l, err, bs, ds>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
M == T.mods
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = "" /\ bs = NoFn /\ ds = NoFn
DD == ds[e.d].defs
CC == ds[e.d].cfg
NN == NodesOf(DD, CC)
SetQ(ok, names, refuse, want, tag) ==
  IF refuse THEN (IF ok THEN tag \o "-answered-for-unknown-name" ELSE "")
  ELSE IF ~ok THEN tag \o "-raised"
  ELSE IF Len(names) # Cardinality(Rng(names)) THEN tag \o "-lists-a-node-twice"
  ELSE IF Rng(names) # want THEN tag \o "-wrong" ELSE ""
VarErr(v) ==
  LET D == DD  n == v.n IN
  IF n \notin NN THEN "unknown-node"
  ELSE IF v.ext # (n \notin DOMAIN D) THEN "input-status-wrong"
  ELSE IF ~TypeOK(D, CC, ds[e.d].lenient, n, v.ty) THEN "node-type-wrong"
  ELSE IF n \notin DOMAIN D THEN (IF v.req # <<>> \/ v.opt # <<>> THEN "dependencies-wrong" ELSE "")
  ELSE IF Rng(v.req) # Req(D[n]) \/ Rng(v.opt) # DOMAIN D[n].dflt THEN "dependencies-wrong"
  ELSE IF v.dflt # D[n].dflt THEN "default-wrong"
  ELSE IF v.tags # D[n].tags THEN "tags-wrong"
  ELSE IF v.doc # D[n].doc THEN "documentation-wrong"
  ELSE ""
ReqErr ==
  LET D == DD  F == Rng(e.final)
      bad == \/ F \ (NN \cup DOMAIN e.ins) # {}
      FF == F \cap NN
      use == UseMap(D, CC, e.ins, e.ovr)
      cyc == \E n \in Used(D, CC, FF, e.ins, e.ovr) : n \in Close(use, use[n], {})
  IN IF bad \/ cyc \/ Lacks(D, CC, FF, e.ins, e.ovr) THEN "no"
     ELSE IF Cyclic(D, CC, FF) THEN "open" ELSE "yes"
(* what a drawing shows: a set of nodes and the dependencies among them *)
Shown == CASE e.kind = "all" -> NN
           [] e.kind = "up" -> Up(DD, CC, Rng(e.ns))
           [] e.kind = "down" -> LET S == Down(DD, CC, Rng(e.ns)) IN S \cup UNION {Deps(DD, n) : n \in S}
           [] e.kind = "path" -> LET S == Path(DD, CC, e.x, e.y) IN IF e.strict THEN S ELSE S \cup UNION {Deps(DD, n) : n \in S}
           [] e.kind = "exec" -> Used(DD, CC, Rng(e.final) \cap NN, e.ins, e.ovr)
DrawBad == CASE e.kind = "all" -> "yes"
             [] e.kind \in {"up", "down"} -> IF Rng(e.ns) \ NN # {} THEN "no" ELSE "yes"
             [] e.kind = "path" -> IF {e.x, e.y} \ NN # {} THEN "no" ELSE IF Path(DD, CC, e.x, e.y) = {} THEN "no" ELSE "yes"
             [] e.kind = "exec" -> LET D == DD IN
                  IF Rng(e.final) \ (NN \cup DOMAIN e.ins) # {} \/ Lacks(D, CC, Rng(e.final) \cap NN, e.ins, e.ovr) THEN "no" ELSE "yes"
DrawErr ==
  LET b == DrawBad  D == DD IN
  IF b = "no" THEN (IF e.ok THEN "drawing-of-nothing" ELSE "")
  ELSE IF ~e.ok THEN "drawing-raised"
  ELSE LET S == Shown
           E == {<<d, n>> : d, n \in S}
           want == {x \in E : x[2] \in DOMAIN D /\ x[1] \in Deps(D, x[2]) /\ (e.hide => x[1] \in DOMAIN D)}
       IN IF Rng(e.nodes) # S \cap DOMAIN D THEN "drawn-nodes-wrong"
          ELSE IF {<<e.edges[i][1], e.edges[i][2]>> : i \in DOMAIN e.edges} # want THEN "drawn-edges-wrong" ELSE ""
Clause ==
  CASE e.ev = "new" -> ""
    [] e.ev = "copy" -> ""
    [] e.ev \in {"modules","config","allow","lenient","hook","dynamic","field","saver","validator"} ->
         IF e.ok /\ Refuses(bs[e.b], e) THEN "setting-accepted-twice-or-too-early"
         ELSE IF ~e.ok /\ ~Refuses(bs[e.b], e) THEN "setting-refused" ELSE ""
    [] e.ev = "built" -> IF e.ok /\ (MustRefuse(M, bs[e.b]) \/ ~Savable(M, bs[e.b])) THEN "invalid-graph-built"
                         ELSE IF e.ok /\ ~Pleased(M, bs[e.b]) THEN "validator-ignored"
                         ELSE IF e.ok /\ {<<e.asked[i].v, e.asked[i].n>> : i \in DOMAIN e.asked} # ToAsk(M, bs[e.b]) THEN "validator-not-asked"
                         ELSE IF "same" \in DOMAIN e /\ ~e.same THEN "callers-objects-changed"
                         ELSE IF ~e.ok /\ MustBuild(M, bs[e.b]) /\ Savable(M, bs[e.b]) /\ Pleased(M, bs[e.b]) THEN "valid-graph-refused" ELSE ""
    [] e.ev = "clone" -> IF e.ok THEN "" ELSE "driver-not-copyable"
    [] e.ev = "vars" ->
         LET bad == {i \in DOMAIN e.vs : VarErr(e.vs[i]) # ""} IN
         IF bad # {} THEN VarErr(e.vs[CHOOSE i \in bad : TRUE])
         ELSE IF Len(e.vs) # Cardinality(NN) \/ {e.vs[i].n : i \in DOMAIN e.vs} # NN THEN "node-set-wrong"
         ELSE IF "savers" \in DOMAIN e /\ e.savers # ds[e.d].savers THEN "savers-wrong" ELSE ""
    [] e.ev = "list" -> SetQ(e.ok, e.names, FALSE, Listed(DD, CC, e.q), "tag-query")
    [] e.ev = "up"   -> SetQ(e.ok, e.names, Rng(e.ns) \ NN # {}, IF Rng(e.ns) \ NN = {} THEN Up(DD, CC, Rng(e.ns)) ELSE {}, "upstream")
    [] e.ev = "down" -> SetQ(e.ok, e.names, Rng(e.ns) \ NN # {}, IF Rng(e.ns) \ NN = {} THEN Down(DD, CC, Rng(e.ns)) ELSE {}, "downstream")
    [] e.ev = "path" -> SetQ(e.ok, e.names, {e.x, e.y} \ NN # {}, IF {e.x, e.y} \ NN = {} THEN Path(DD, CC, e.x, e.y) ELSE {}, "path")
    [] e.ev = "cyc"  -> IF Rng(e.ns) \ NN # {} THEN (IF e.ok THEN "cycles-answered-for-unknown-name" ELSE "")
                        ELSE IF ~e.ok THEN "cycles-raised" ELSE IF e.v # Cyclic(DD, CC, Rng(e.ns)) THEN "cycles-wrong" ELSE ""
    [] e.ev = "drawn" -> DrawErr
    [] e.ev = "export" ->
         LET r == ReqErr IN
         IF r = "no" THEN (IF e.ok /\ ~Cyclic(DD, CC, Rng(e.final) \cap NN) THEN "export-of-impossible-request" ELSE "")
         ELSE IF ~e.ok THEN (IF r = "open" THEN "" ELSE "export-raised")
         ELSE IF {e.nodes[i].n : i \in DOMAIN e.nodes} # Used(DD, CC, Rng(e.final) \cap NN, e.ins, e.ovr)
              THEN "export-nodes-wrong"
         ELSE IF \E i \in DOMAIN e.nodes : LET v == e.nodes[i] IN
                   /\ v.n \in DOMAIN DD
                   /\ (Rng(v.req) # Req(DD[v.n]) \/ Rng(v.opt) # DOMAIN DD[v.n].dflt)
              THEN "export-dependencies-wrong" ELSE ""
    [] e.ev = "run" ->
         LET r == ReqErr IN
         IF r = "no" THEN (IF e.ok THEN "impossible-request-answered"
                           ELSE IF e.calls # <<>> /\ ~Cyclic(DD, CC, Rng(e.final) \cap NN) THEN "ran-although-impossible" ELSE "")
         ELSE IF ~e.ok THEN (IF r = "open" THEN "" ELSE "request-raised")
         ELSE IF ~e.same THEN "callers-objects-changed"
         ELSE IF DOMAIN e.res # Rng(e.final) THEN "result-keys-wrong"
         ELSE IF \E x \in Rng(e.final) : e.res[x] # (IF x \in NN THEN Val(DD, CC, e.ins, e.ovr, x) ELSE e.ins[x]) THEN "result-wrong"
         ELSE IF Len(e.calls) # Cardinality(Rng(e.calls)) \/ Rng(e.calls) # Calls(DD, CC, Rng(e.final) \cap NN, e.ins, e.ovr)
              THEN "calls-wrong"
         ELSE IF e.hooks # ds[e.d].hooks THEN "adapters-wrong" ELSE ""
    [] e.ev = "hang" -> "did-not-terminate"
    [] OTHER -> "unexpected-event"
Snap(b) == [defs |-> Defs(M, b), cfg |-> b.cfg, lenient |-> b.lenient, hooks |-> b.hooks, savers |-> b.savers]
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<tid, l, bs, ds>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
          /\ bs' = CASE e.ev = "new" -> Put(bs, e.b, Fresh)
                     [] e.ev = "copy" -> Put(bs, e.b2, bs[e.b])
                     [] e.ev \in {"modules","config","allow","lenient","hook","dynamic","field","saver","validator"} /\ e.ok ->
                          [bs EXCEPT ![e.b] = Apply(@, e)]
                     [] OTHER -> bs
          /\ ds' = CASE e.ev = "built" /\ e.ok -> Put(ds, e.d, Snap(bs[e.b]))
                     [] e.ev = "clone" -> Put(ds, e.d2, ds[e.d])
                     [] OTHER -> ds
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err, bs, ds>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
