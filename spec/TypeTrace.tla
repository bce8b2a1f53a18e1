----------------------------- MODULE TypeTrace -----------------------------
(* Validates recorded runs under the run-time type checker. *)
EXTENDS TypeCheck, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err
tvars == <<tid, l, err>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
Rng(s) == {s[i] : i \in DOMAIN s}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = ""
RunClause ==
  LET ns == T.nodes
      need == Needed(ns, Rng(e.final), DOMAIN e.ovr)
      O == Outs(ns, e.ovr, T.cin, T.cout)
      I == {i \in DOMAIN ns : ns[i].n \in need}
      os == {O[i] : i \in I}
      errs == os \ {"fine", "unreached"}
      mayCall == {ns[i].n : i \in {j \in I : Called(ns, e.ovr, T.cin, T.cout, j)}} IN
  IF "open" \in os THEN ""
  ELSE IF errs = {} THEN (IF ~e.ok THEN "good-value-refused" ELSE IF Rng(e.calls) # mayCall THEN "called-wrong"
                          ELSE IF DOMAIN e.res # Rng(e.final) \/ \E x \in Rng(e.final) : e.res[x] # ValOf(ns, e.ovr, x) THEN "result-wrong" ELSE "")
  ELSE IF e.ok THEN "bad-value-accepted"
  ELSE IF e.err \notin errs THEN "error-masked"
  ELSE IF ~(Rng(e.calls) \subseteq mayCall) THEN "called-on-bad-value" ELSE ""
(* a parallel block: items given, each passed through one function, collected *)
ParClause ==
  LET ins == {Conf(e.items[i], T.ity) : i \in DOMAIN e.items}
      out == IF e.items = <<>> THEN {} ELSE {Conf(T.ret, T.rty)}
      open == (T.cin /\ "open" \in ins) \/ (T.cout /\ "open" \in out) \/ (T.cin /\ "open" \in out) \/ (~T.cin /\ T.cout /\ ins # {"yes"})
      bad == (T.cin /\ "no" \in ins) \/ (T.cout /\ "no" \in out) \/ (T.cin /\ "no" \in out) IN
  IF open THEN "" ELSE IF bad THEN (IF e.ok THEN "bad-value-accepted" ELSE IF e.err # "TypeError" THEN "error-masked" ELSE "")
  ELSE IF ~e.ok THEN "good-value-refused" ELSE IF e.n # Len(e.items) THEN "result-wrong" ELSE ""
Clause == CASE e.ev = "run" -> RunClause [] e.ev = "par" -> ParClause [] OTHER -> "unexpected-event"
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN IF c # "" THEN err' = c /\ UNCHANGED <<tid, l>> ELSE l' = l + 1 /\ UNCHANGED <<tid, err>>
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
