------------------------------ MODULE DQTrace ------------------------------
(* Validates recorded sessions with checked functions. *)
EXTENDS DQ, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err
tvars == <<tid, l, err>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = ""
G == GraphOf(T.prog, 1)
B == T.vals
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
PairOf(H, x) == <<H[x].on, H[x].c.nm>>
(* the warnings a run of the nodes N owes: a bag of pairs *)
Owed(H, V, o, N, p) == Cardinality({x \in UNION {With(H, V, o, n, "warn") : n \in {m \in N : H[m].k = "fin"}} : PairOf(H, x) = p})
Pairs(H) == {PairOf(H, x) : x \in {y \in DOMAIN H : H[y].k = "val"}}
CustomErr(H, o, N) ==
  LET W == {x \in N : H[x].k = "val" /\ H[x].c.a = "custom"}
      key(x) == Key(H, o, H[x].deps[1])
      of(nm) == {i \in DOMAIN e.vcalls : e.vcalls[i][1] = nm}
      names == {H[x].c.nm : x \in W} \cup {e.vcalls[i][1] : i \in DOMAIN e.vcalls} IN
  IF \E nm \in names : Cardinality(of(nm)) > Cardinality({x \in W : H[x].c.nm = nm}) THEN "validated-more-than-once"
  ELSE IF \E nm \in names : Cardinality(of(nm)) < Cardinality({x \in W : H[x].c.nm = nm}) THEN "not-validated"
  ELSE IF \E x \in W : \A i \in of(H[x].c.nm) : key(x) \notin Rng(e.vcalls[i][2]) THEN "validated-something-else" ELSE ""
ArgErr(H, o) == \E i \in DOMAIN e.args : \E j \in DOMAIN e.args[i][2] :
                  LET a == e.args[i][2][j] IN Key(H, o, a[1]) \notin Rng(a[2])
RunErr ==
  LET o == e.ovr  F == Rng(e.final)  N == Runs(G, F, o)
      base == {x \in N : G[x].k = "base"}
      bad == Bad(G, B, o, N)
      fst == First(G, B, o, N)
      at == {G[x].at : x \in base} IN
  IF Open(G, B, o, N) THEN "open"
  ELSE IF \E i \in DOMAIN e.calls : Count(e.calls, e.calls[i]) > 1 THEN "computed-more-than-once"
  ELSE IF ~(Rng(e.calls) \subseteq at) THEN "computed-unneeded"
  ELSE IF ArgErr(G, o) THEN "argument-wrong"
  ELSE IF \E p \in Rng(e.warns) : p \notin Pairs(G) \/ Count(e.warns, p) > Owed(G, B, o, N, p) THEN "warned-wrongly"
  ELSE IF bad = {} THEN
    IF ~e.ok THEN (IF e.err = "dv" THEN "rejected-good-data" ELSE "request-raised")
    ELSE IF Rng(e.calls) # at THEN "not-computed"
    ELSE IF DOMAIN e.res # F THEN "result-keys-wrong"
    ELSE IF \E x \in F : G[x].k = "val" /\ e.res[x] # <<IF x \in DOMAIN o THEN o[x].p ELSE VRes(G, B, o, x)>> THEN "verdict-wrong"
    ELSE IF \E x \in F : G[x].k # "val" /\ Key(G, o, x) \notin Rng(e.res[x]) THEN "result-wrong"
    ELSE IF \E p \in Pairs(G) : Count(e.warns, p) # Owed(G, B, o, N, p) THEN "warning-missing"
    ELSE CustomErr(G, o, N)
  ELSE
    IF e.ok THEN "bad-data-accepted"
    ELSE IF \E x \in Blocked(G, B, o, base \cup N) : G[x].k = "base" /\ G[x].at \in Rng(e.calls) THEN "bad-data-used"
    ELSE IF e.err = "dv" THEN
      (IF \E n \in fst : /\ Fails(G, B, o, n)
                         /\ LET w == With(G, B, o, n, "fail") IN
                            /\ Len(e.fails) = Cardinality(w)
                            /\ \A p \in Pairs(G) : Count(e.fails, p) = Cardinality({x \in w : PairOf(G, x) = p})
                         /\ \A p \in Pairs(G) : Count(e.warns, p) >= Owed(G, B, o, {n}, p)
       THEN "" ELSE "wrong-failures-named")
    ELSE IF \E x \in fst : Boom(G, B, o, x) THEN "" ELSE "wrong-error"
(* a checked node inside a parallel block: every item on its own *)
ParErr ==
  LET H == GraphOf(T.prog, 1)
      Bi(i) == Put(B, T.par.n, T.par.items[i])
      I == DOMAIN T.par.items
      N == DOMAIN H
      bad(i) == Bad(H, Bi(i), NoFn, N)
      RECURSIVE Tot(_, _)
      Tot(p, i) == IF i = 0 THEN 0 ELSE Owed(H, Bi(i), NoFn, N, p) + Tot(p, i - 1) IN
  IF \E i \in I : Open(H, Bi(i), NoFn, N) THEN "open"
  ELSE IF \E p \in Rng(e.warns) : p \notin Pairs(H) \/ Count(e.warns, p) > Tot(p, Len(T.par.items)) THEN "warned-wrongly"
  ELSE IF \A i \in I : bad(i) = {} THEN
    IF ~e.ok THEN (IF e.err = "dv" THEN "rejected-good-data" ELSE "request-raised")
    ELSE IF Len(e.out) # Len(T.par.items) \/ \E i \in I : ("i:" \o ToString(i)) \notin Rng(e.out[i]) THEN "result-wrong"
    ELSE IF \E p \in Pairs(H) : Count(e.warns, p) # Tot(p, Len(T.par.items)) THEN "warning-missing" ELSE ""
  ELSE IF e.ok THEN "bad-data-accepted"
  ELSE IF e.err = "dv" THEN
      (IF \E i \in I : \E n \in bad(i) : /\ Fails(H, Bi(i), NoFn, n)
                         /\ LET w == With(H, Bi(i), NoFn, n, "fail") IN
                            /\ Len(e.fails) = Cardinality(w)
                            /\ \A p \in Pairs(H) : Count(e.fails, p) = Cardinality({x \in w : PairOf(H, x) = p})
       THEN "" ELSE "wrong-failures-named")
  ELSE IF \E i \in I : \E x \in bad(i) : Boom(H, Bi(i), NoFn, x) THEN "" ELSE "wrong-error"
Clause ==
  CASE e.ev = "built" -> IF e.ok /\ ~ProgOK(T.prog) THEN "invalid-check-accepted" ELSE IF ~e.ok /\ ProgOK(T.prog) THEN "valid-check-refused" ELSE ""
    [] e.ev = "names" ->
         IF ~(DOMAIN G \subseteq Rng(e.names)) THEN "nodes-missing"
         ELSE IF ~(Rng(e.names) \subseteq DOMAIN G \cup Rng(T.extra)) THEN "nodes-too-many"
         ELSE IF {x \in DOMAIN G : G[x].k = "val"} # DOMAIN e.dq \/ \E x \in DOMAIN e.dq : e.dq[x] # G[x].on THEN "validators-marked-wrong" ELSE ""
    [] e.ev \in {"run", "par"} /\ e.changed # <<>> -> "data-changed"
    [] e.ev = "run" -> RunErr
    [] e.ev = "par" -> ParErr
    [] OTHER -> "unexpected-event"
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c \notin {"", "open"} THEN err' = c /\ UNCHANGED <<tid, l>>
     ELSE l' = l + 1 /\ UNCHANGED <<tid, err>>
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
