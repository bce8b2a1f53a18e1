-------------------------------- MODULE DQMC --------------------------------
(* Design model: a checked function f with a consumer g, all small check lists, values and overrides; nodes are computed in any order. *)
EXTENDS DQ
CONSTANT MaxChecks
VARIABLES P, B, o, req, done, failed
vars == <<P, B, o, req, done, failed>>
Nm(n) == [k |-> "num", n |-> n, py |-> "float"]
NaN == [k |-> "nan"]
Ser(xs) == [k |-> "series", dt |-> "float64", xs |-> xs]
Scalars == {Nm(-4), Nm(0), Nm(4), NaN, [k |-> "inf", s |-> 1]}
Elems == {Nm(-4), Nm(0), Nm(4), NaN}
Series == {Ser(xs) : xs \in {<<>>} \cup {<<a>> : a \in Elems} \cup {<<a, b>> : a, b \in Elems} \cup {<<a, b, Nm(8)>> : a, b \in Elems}}
C(a, imp) == [a |-> a, nm |-> a \o "_validator", imp |-> imp, av |-> TRUE]
Range(l, h) == Over(C("range", "fail"), [lo |-> Nm(l), hi |-> Nm(h)])
Mean(l, h) == Over(C("mean_in_range", "fail"), [lo |-> Nm(l), hi |-> Nm(h)])
MaxNan(k, d) == Over(C("max_fraction_nans", "fail"), [num |-> k, den |-> d])
NoNan == Over(C("allow_nans", "fail"), [b |-> FALSE, num |-> 0, den |-> 1])
Std(m) == Over(C("max_standard_dev", "fail"), [m |-> m])
In(s) == Over(C("values_in", "fail"), [vals |-> s])
Some == {Range(-4, 0), Range(0, 8), Mean(0, 4), MaxNan(1, 2), NoNan, Std(4), In(<<Nm(0), Nm(4)>>)}
Cust == {[a |-> "custom", nm |-> "v", imp |-> "fail", av |-> TRUE, p |-> p, t |-> Nm(0)] : p \in {"yes", "no", "boom"}}
Checks == UNION {{c, [c EXCEPT !.imp = "warn"]} : c \in Some \cup Cust}
Lists == {<<c>> : c \in Checks} \cup (IF MaxChecks < 2 THEN {} ELSE {<<c, d>> : c, d \in Checks})
Fn(n, ps, layers) == [n |-> n, kind |-> "plain", ps |-> ps, fs |-> <<>>, tys |-> [x \in {n} |-> "series"], layers |-> layers]
Init == /\ \E cs \in Lists : P = <<Fn("f", <<>>, <<[k |-> "check", cs |-> cs, tk |-> "none", tl |-> <<>>]>>), Fn("g", <<"f">>, <<>>)>>
        /\ \E v \in {Ser(<<>>), Ser(<<Nm(0), Nm(4)>>), Ser(<<NaN, Nm(4), Nm(8)>>), Ser(<<Nm(-4)>>)} : B = [x \in {"f", "g"} |-> v]
        /\ o \in {NoFn, [x \in {"f"} |-> Ser(<<NaN>>)], [x \in {"f_raw"} |-> Ser(<<NaN>>)], [x \in {"f_v"} |-> [k |-> "vr", p |-> "yes"]]}
        /\ req \in {{"g"}, {"f"}, {"f_raw"}, {"g", "f_raw"}}
        /\ done = {} /\ failed = ""
G == GraphOf(P, 1)
O == [x \in DOMAIN o \cap DOMAIN G |-> o[x]]
N == Runs(G, req, O)
Can == IF failed # "" THEN {} ELSE {x \in N \ done : Deps(G, x) \ DOMAIN O \subseteq done}
Compute ==
  \E x \in Can :
    /\ UNCHANGED <<P, B, o, req>>
    /\ IF x \in Bad(G, B, O, N) THEN failed' = x /\ UNCHANGED done ELSE done' = done \cup {x} /\ UNCHANGED failed
Next == Compute
Spec == Init /\ [][Next]_vars /\ WF_vars(Compute)
cs == P[1].layers[1].cs
(* the consumer only runs on data all of whose checks were done, and none that matters failed *)
CheckedBeforeUse == ("g" \in done /\ "f" \notin DOMAIN O) =>
   \A x \in Vs(G, "f") : (x \in done \/ x \in DOMAIN O) /\ ~(G[x].c.imp = "fail" /\ VRes(G, B, O, x) = "no")
FailureIsBad == failed # "" => failed \in First(G, B, O, N)
EndsRight == Can = {} => IF Bad(G, B, O, N) = {} THEN done = N /\ failed = "" ELSE failed # ""
WarnTransparent == (\A i \in DOMAIN cs : cs[i].imp = "warn" /\ cs[i].a # "custom") => (Bad(G, B, O, N) = {} /\ Key(G, O, "f") = (IF "f" \in DOMAIN O THEN "o:f" ELSE IF "f_raw" \in DOMAIN O THEN "o:f_raw" ELSE "b:f"))
RawUnchecked == req = {"f_raw"} => N \subseteq {"f_raw"} /\ Bad(G, B, O, N) = {}
Terminates == <>[](Can = {})
(* laws of the single checks *)
ASSUME Wider == \A v \in Series \cup Scalars : \A l, h \in {-4, 0, 4} : Res(Range(l, h), v) = "yes" => Res(Range(l - 1, h), v) = "yes" /\ Res(Range(l, h + 1), v) = "yes"
ASSUME NoNanIsZero == \A v \in Series : Res(NoNan, v) = Res(MaxNan(0, 1), v) /\ Res(MaxNan(1, 1), v) = "yes"
ASSUME RangeBoundsMean == \A v \in Series : \A l, h \in {-4, 0, 4, 8} : (v.xs # <<>> /\ Res(Range(l, h), v) = "yes") => Res(Mean(l, h), v) = "yes"
ASSUME ConstantHasNoDeviation == \A a \in {Nm(-4), Nm(4)} : Res(Std(0), Ser(<<a, a, a>>)) = "yes" /\ Res(Std(0), Ser(<<a>>)) = "no" /\ Res(Std(0), Ser(<<a, a, Nm(0)>>)) = "no"
ASSUME ElementIsIn == \A v \in Series : Res(In(Nums(v.xs)), v) = "yes"
ASSUME RangeOutsideNaN == \A v \in Series : (\E i \in DOMAIN v.xs : v.xs[i].k = "nan") => Res(Range(-400, 400), v) = "no"
=============================================================================
