--------------------------- MODULE ResultsTrace ---------------------------
EXTENDS Results, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err
tvars == <<tid, l, err>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = ""
Out(n) == T.vals[CHOOSE i \in DOMAIN T.vals : T.vals[i].n = n]
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET r == Uniq(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Rng(r) THEN r ELSE Append(r, s[Len(s)])
Clause ==
  IF e.ev # "run" THEN "unexpected-event" ELSE
  LET names == Uniq(e.want)
      outs == [i \in DOMAIN names |-> Out(names[i])]
      dup == ~Single(outs) /\ ~AllPlain(outs) /\ LET ps == Pieces(outs) IN Cardinality(Indexes(ps)) > 1 /\ \E x \in Indexes(ps) : Twice(x)
      (* how several kinds of labels, or repeated ones, are joined is left to pandas *)
      open == e.b \in {"pandas", "strict"} /\ (dup \/ (~e.ok /\ e.b = "pandas" /\ Cardinality(Types(outs)) > 1))
      can == CASE e.b = "dict" -> TRUE
               [] e.b = "pandas" -> PandasOk(outs)
               [] e.b = "strict" -> StrictOk(outs) /\ PandasOk(outs)
               [] e.b = "numpy" -> MatrixOk(outs)
               [] OTHER -> PlainOk(outs) IN
  IF open THEN ""
  ELSE IF ~can THEN (IF e.ok THEN "impossible-result-made" ELSE "")
  ELSE IF ~e.ok THEN "result-refused"
  ELSE CASE e.b = "dict" -> IF e.keys # names THEN "wrong-keys" ELSE IF ~e.same THEN "wrong-values" ELSE ""
         [] e.b \in {"pandas", "strict"} -> IF ~e.type THEN "wrong-type" ELSE IF ~IsTable(outs, e.res) THEN "wrong-table" ELSE ""
         [] e.b = "numpy" -> IF ~e.type THEN "wrong-type" ELSE IF e.res # Matrix(outs) THEN "wrong-matrix" ELSE ""
         [] OTHER -> IF ~e.type THEN "wrong-type" ELSE IF ~PlainTable(outs, e.res) THEN "wrong-table" ELSE ""
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN IF c # "" THEN err' = c /\ UNCHANGED <<tid, l>> ELSE l' = l + 1 /\ UNCHANGED <<tid, err>>
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
