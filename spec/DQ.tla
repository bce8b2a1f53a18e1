--------------------------------- MODULE DQ ---------------------------------
(***************************************************************************)
(* Data quality checks on the results of functions.                        *)
(* Values:  [k |-> "num", n, py]  (n in quarters; py: "int","float","bool")*)
(*   [k |-> "nan"] [k |-> "inf", s] [k |-> "str", s] [k |-> "none"]        *)
(*   [k |-> "series", dt, xs] [k |-> "dict", f] [k |-> "list"]             *)
(*   [k |-> "frame", cols]  cols: sequence of [n, dt, xs]                  *)
(*   [k |-> "vr", p]  (the result of a validator, as an override)          *)
(* A program P is a sequence of functions                                  *)
(*   [n, kind, ty, ps, layers, fs]                                         *)
(*   kind  "plain" | "fields" | "param"                                    *)
(*   fs    names of the fields or of the parameterized nodes               *)
(*   tys   name |-> type of every node of the function                     *)
(*   vs    name |-> value the function computes for the node               *)
(* layers, in the order in which they are applied:                         *)
(*   [k |-> "extract"] | [k |-> "check", cs, tk, tl]                       *)
(*   cs    sequence of [a, nm, imp, ...]: the argument or the custom       *)
(*         validator, its name, "warn" or "fail", and its parameters       *)
(*   tk    "none" (the last nodes) | "all" | "list" (those of tl)          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
NoFn == [x \in {} |-> ""]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

(*------------------------------ single checks ------------------------------*)
Ord(v) == IF v.k = "inf" THEN v.s * 1000000 ELSE v.n
Number(v) == v.k \in {"num", "nan", "inf"}
Le(a, b) == a.k # "nan" /\ b.k # "nan" /\ Ord(a) <= Ord(b)
Same(a, b) == \/ a.k = "str" /\ b.k = "str" /\ a.s = b.s
              \/ a.k \in {"num", "inf"} /\ b.k \in {"num", "inf"} /\ Ord(a) = Ord(b)
NA(x) == x.k \in {"nan", "none"}
Among(x, vals) == \E i \in DOMAIN vals : Same(x, vals[i])
Within(x, c) == Le(c.lo, x) /\ Le(x, c.hi)
Has(s, t) == \E i \in 0..(Len(s) - Len(t)) : \A j \in DOMAIN t : s[i + j] = t[j]
YN(b) == IF b THEN "yes" ELSE "no"
Inst(v) == CASE v.k \in {"nan", "inf"} -> {"float", "object"}
             [] v.k = "num" /\ v.py = "bool" -> {"bool", "int", "object"}
             [] v.k = "num" -> {v.py, "object"}
             [] v.k = "str" -> {"str", "object"}
             [] OTHER -> {"object"}
Kinds(dt) == CASE dt = "float64" -> {"float64", "floating", "number", "generic"}
               [] dt = "float32" -> {"float32", "floating", "number", "generic"}
               [] dt = "int64" -> {"int64", "signedinteger", "integer", "number", "generic"}
               [] dt = "int32" -> {"int32", "signedinteger", "integer", "number", "generic"}
               [] dt = "bool" -> {"bool_", "generic"}
               [] OTHER -> {"object_", "generic"}
Nums(xs) == SelectSeq(xs, LAMBDA x : ~NA(x))
RECURSIVE Sum(_), SumSq(_)
Sum(xs) == IF xs = <<>> THEN 0 ELSE Head(xs).n + Sum(Tail(xs))
SumSq(xs) == IF xs = <<>> THEN 0 ELSE Head(xs).n * Head(xs).n + SumSq(Tail(xs))
(* sample standard deviation <= m; equality is only decided where binary fractions are exact *)
StdOK(ys, m) ==
  LET n == Len(ys)  S == Sum(ys)  l == n * SumSq(ys) - S * S  r == m * m * n * (n - 1) IN
  IF n < 2 THEN "no" ELSE IF m < 0 THEN "no" ELSE IF l < r THEN "yes" ELSE IF l > r THEN "no"
  ELSE IF S % n = 0 /\ (l \div n) % (n - 1) = 0 THEN "yes" ELSE "open"
MeanOK(ys, c) == LET n == Len(ys) IN
  n > 0 /\ Ord(c.lo) * n <= Sum(ys) /\ Sum(ys) <= Ord(c.hi) * n
(* a schema: columns [n, dt, lo, hi, nullable, coerce], strict: "" | "strict" | "filter" (other columns allowed, refused, not looked at) *)
(* whole columns can be coerced to fractions; other coercions are pandas' business and left out *)
DtOK(s, col) == s.coerce \/ s.dt = col.dt
ColOK(s, col) == /\ DtOK(s, col)
                 /\ s.nullable \/ \A i \in DOMAIN col.xs : ~NA(col.xs[i])
                 /\ \A i \in DOMAIN col.xs : NA(col.xs[i]) \/ Within(col.xs[i], s)
FrameOK(c, v) == /\ \A i \in DOMAIN c.cols : \E j \in DOMAIN v.cols : v.cols[j].n = c.cols[i].n /\ ColOK(c.cols[i], v.cols[j])
                 /\ c.strict = "strict" => \A j \in DOMAIN v.cols : \E i \in DOMAIN c.cols : v.cols[j].n = c.cols[i].n
(* "yes", "no", "boom" (the validator itself fails), "open" *)
Res(c, v) ==
  CASE c.a = "allow_none" -> YN(c.b \/ v.k # "none")
    [] c.a = "range" -> IF v.k = "series" THEN YN(\A i \in DOMAIN v.xs : Within(v.xs[i], c))
                        ELSE IF Number(v) THEN YN(Within(v, c)) ELSE "boom"
    [] c.a = "values_in" -> IF v.k = "series" THEN YN(\A i \in DOMAIN v.xs : NA(v.xs[i]) \/ Among(v.xs[i], c.vals))
                            ELSE IF c.on = "series" THEN "boom"
                            ELSE YN(Among(v, c.vals))
    [] c.a = "data_type" -> IF v.k = "series" THEN YN(c.dt \in Kinds(v.dt)) ELSE IF c.on = "series" THEN "boom" ELSE YN(c.dt \in Inst(v))
    [] c.a \in {"max_fraction_nans", "allow_nans"} ->
         IF v.k # "series" THEN "boom"
         ELSE YN(Cardinality({i \in DOMAIN v.xs : NA(v.xs[i])}) * c.den <= c.num * Len(v.xs))
    [] c.a = "mean_in_range" -> IF v.k # "series" THEN "boom" ELSE YN(MeanOK(Nums(v.xs), c))
    [] c.a = "max_standard_dev" -> IF v.k # "series" THEN "boom" ELSE StdOK(Nums(v.xs), c.m)
    [] c.a = "contains" -> IF v.k # "str" /\ c.subs # <<>> THEN "boom" ELSE YN(\A i \in DOMAIN c.subs : Has(v.s, c.subs[i]))
    [] c.a = "does_not_contain" -> IF v.k # "str" /\ c.subs # <<>> THEN "boom" ELSE YN(\A i \in DOMAIN c.subs : ~Has(v.s, c.subs[i]))
    [] c.a = "schema" -> IF v.k = "frame" THEN YN(FrameOK(c, v)) ELSE IF v.k = "series" THEN YN(ColOK(c.cols[1], v)) ELSE "boom"
    [] c.a = "custom" -> IF c.p = "le" THEN YN(v.k \in {"num", "inf"} /\ Le(v, c.t)) ELSE c.p
    [] OTHER -> "open"
Applies(a, ty) ==
  CASE a \in {"custom", "allow_none"} -> TRUE
    [] a \in {"range"} -> ty \in {"int", "float", "bool", "series"}
    [] a \in {"values_in", "data_type"} -> ty \in {"int", "float", "bool", "str", "series"}
    [] a \in {"contains", "does_not_contain"} -> ty = "str"
    [] a = "schema" -> ty \in {"series", "frame"}
    [] a \in {"max_fraction_nans", "allow_nans", "mean_in_range", "max_standard_dev"} -> ty = "series"
    [] OTHER -> FALSE
ArgOK(c) == c.av /\ CASE c.a = "max_fraction_nans" -> 0 <= c.num /\ c.num <= c.den
              [] c.a = "allow_nans" -> ~c.b
              [] OTHER -> TRUE

(*--------------------------------- graphs ---------------------------------*)
Deps(G, x) == Rng(G[x].deps)
Start(F) == IF F.kind = "param" THEN [x \in Rng(F.fs) |-> [k |-> "base", deps |-> F.ps, at |-> x, fn |-> F.n]]
            ELSE [x \in {F.n} |-> [k |-> "base", deps |-> F.ps, at |-> x, fn |-> F.n]]
Last(M) == {x \in DOMAIN M : \A y \in DOMAIN M : x \notin Deps(M, y)}
Extract(M, F) == Over(M, [x \in Rng(F.fs) |-> [k |-> "field", deps |-> <<F.n>>, at |-> x, fn |-> F.n]])
Targets(M, L) == CASE L.tk = "none" -> Last(M) [] L.tk = "all" -> DOMAIN M [] OTHER -> Rng(L.tl)
VName(n, cs, i) == LET j == Cardinality({h \in 1..(i - 1) : cs[h].nm = cs[i].nm}) IN
                   n \o "_" \o cs[i].nm \o (IF j = 0 THEN "" ELSE "_" \o ToString(j))
Raw(n) == n \o "_raw"
Checked(M, n, cs) ==
  Over(Put(M, Raw(n), M[n]),
       Put([x \in {VName(n, cs, i) : i \in DOMAIN cs} |->
              [k |-> "val", deps |-> <<Raw(n)>>, on |-> n, c |-> cs[CHOOSE i \in DOMAIN cs : VName(n, cs, i) = x]]],
           n, [k |-> "fin", deps |-> <<Raw(n)>> \o [i \in DOMAIN cs |-> VName(n, cs, i)], on |-> n]))
LayerOK(M, F, L) == \/ L.k = "extract"
                    \/ /\ Targets(M, L) \subseteq DOMAIN M
                       /\ \A i \in DOMAIN L.cs : ArgOK(L.cs[i]) /\ \A x \in Targets(M, L) : Applies(L.cs[i].a, F.tys[x])
Typed(L, F, x) == [i \in DOMAIN L.cs |-> Put(L.cs[i], "on", F.tys[x])]
RECURSIVE CheckEach(_, _, _, _)
CheckEach(M, S, L, F) == IF S = {} THEN M
                         ELSE LET n == CHOOSE x \in S : TRUE IN CheckEach(Checked(M, n, Typed(L, F, n)), S \ {n}, L, F)
Apply(M, F, L) == IF L.k = "extract" THEN Extract(M, F) ELSE CheckEach(M, Targets(M, L), L, F)
RECURSIVE Layers(_, _, _), LayersOK(_, _, _)
Layers(M, F, i) == IF i > Len(F.layers) THEN M ELSE Layers(Apply(M, F, F.layers[i]), F, i + 1)
LayersOK(M, F, i) == i > Len(F.layers) \/ (LayerOK(M, F, F.layers[i]) /\ LayersOK(Apply(M, F, F.layers[i]), F, i + 1))
ProgOK(P) == \A i \in DOMAIN P : LayersOK(Start(P[i]), P[i], 1)
RECURSIVE GraphOf(_, _)
GraphOf(P, i) == IF i > Len(P) THEN NoFn ELSE Over(Layers(Start(P[i]), P[i], 1), GraphOf(P, i + 1))

(*--------------------------------- running ---------------------------------*)
(* base(n): the value computed for node n; o: overrides *)
RECURSIVE Val(_, _, _, _), Key(_, _, _)
Val(G, B, o, x) == IF x \in DOMAIN o THEN o[x]
                   ELSE CASE G[x].k = "base" -> B[G[x].at]
                          [] G[x].k = "field" -> Val(G, B, o, G[x].deps[1]).f[G[x].at]
                          [] OTHER -> Val(G, B, o, G[x].deps[1])
(* the object itself: which of the known objects the node's value is *)
Key(G, o, x) == IF x \in DOMAIN o THEN "o:" \o x
                ELSE CASE G[x].k = "base" -> "b:" \o G[x].at
                       [] G[x].k = "field" -> LET r == Key(G, o, G[x].deps[1]) f == G[x].fn IN
                                              IF r = "b:" \o f THEN "b:" \o G[x].at ELSE r \o "." \o G[x].at
                       [] OTHER -> Key(G, o, G[x].deps[1])
VRes(G, B, o, x) == IF x \in DOMAIN o THEN o[x].p ELSE Res(G[x].c, Val(G, B, o, G[x].deps[1]))
RECURSIVE Needed(_, _, _)
Needed(G, S, o) == LET T == S \cup UNION {Deps(G, x) : x \in S \ DOMAIN o} IN IF T = S THEN S ELSE Needed(G, T, o)
Runs(G, F, o) == Needed(G, F, o) \ DOMAIN o
Vs(G, n) == {x \in Deps(G, n) : G[x].k = "val"}
With(G, B, o, n, imp) == {x \in Vs(G, n) : G[x].c.imp = imp /\ VRes(G, B, o, x) = "no"}
Open(G, B, o, N) == \E x \in N : G[x].k = "val" /\ VRes(G, B, o, x) = "open"
Boom(G, B, o, x) == G[x].k = "val" /\ VRes(G, B, o, x) = "boom"
Fails(G, B, o, x) == G[x].k = "fin" /\ With(G, B, o, x, "fail") # {}
Bad(G, B, o, N) == {x \in N : Boom(G, B, o, x) \/ Fails(G, B, o, x)}
RECURSIVE Down(_, _, _)
Down(G, S, N) == LET T == S \cup {y \in N : Deps(G, y) \cap S # {}} IN IF T = S THEN S ELSE Down(G, T, N)
(* nodes that cannot be computed because of what is bad upstream *)
Dead(G, B, o, N) == LET b == Bad(G, B, o, N) IN Down(G, b, N) 
Blocked(G, B, o, N) == {y \in N : Deps(G, y) \cap Dead(G, B, o, N) # {}}
(* the bad ones that can be the error of the run *)
First(G, B, o, N) == Bad(G, B, o, N) \ Blocked(G, B, o, N)
=============================================================================
