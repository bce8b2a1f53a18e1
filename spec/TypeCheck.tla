------------------------------ MODULE TypeCheck ------------------------------
(* Which values conform to a declared type, and what a run does whose inputs and outputs are checked against the declared types.

   A value: [k, xs]: k the class, xs the elements (of a dict: pairs <<key, value>>).  A type: [t, as, ls]: as the type arguments, ls the literals.
   The answer is "yes", "no", or "open" (where Python itself leaves it open what the annotation means for the value). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RECURSIVE Conf(_, _)
AllOf(S) == IF "no" \in S THEN "no" ELSE IF "open" \in S THEN "open" ELSE "yes"
AnyOf(S) == IF "yes" \in S THEN "yes" ELSE IF "open" \in S THEN "open" ELSE "no"
Bool(b) == IF b THEN "yes" ELSE "no"
Subs(c) == CASE c = "int" -> {"int", "bool"} [] c = "A" -> {"A", "B"} [] OTHER -> {c}
Elems(v, t) == AllOf({Conf(v.xs[i], t.as[1]) : i \in DOMAIN v.xs})
Keys(v, t) == AllOf({Conf(v.xs[i][1], t.as[1]) : i \in DOMAIN v.xs})
Pairs(v, t) == AllOf({Conf(v.xs[i][1], t.as[1]) : i \in DOMAIN v.xs} \cup {Conf(v.xs[i][2], t.as[2]) : i \in DOMAIN v.xs})
Conf(v, t) ==
  CASE t.t = "Any" -> "yes"
    [] t.t = "Union" -> AnyOf({Conf(v, t.as[i]) : i \in DOMAIN t.as})
    [] t.t = "Annotated" -> Conf(v, t.as[1])
    [] t.t = "Literal" -> Bool(\E i \in DOMAIN t.ls : t.ls[i] = v)
    [] t.t \in {"List", "Set", "FrozenSet"} -> IF v.k # (CASE t.t = "List" -> "list" [] t.t = "Set" -> "set" [] OTHER -> "frozenset") THEN "no" ELSE Elems(v, t)
    [] t.t \in {"Dict", "Mapping"} -> IF v.k # "dict" THEN "no" ELSE Pairs(v, t)
    [] t.t = "TupleOf" -> IF v.k # "tuple" THEN "no" ELSE Elems(v, t)
    [] t.t = "Tuple" -> IF v.k # "tuple" \/ Len(v.xs) # Len(t.as) THEN "no" ELSE AllOf({Conf(v.xs[i], t.as[i]) : i \in DOMAIN v.xs})
    [] t.t = "Sequence" -> IF v.k \in {"list", "tuple"} THEN Elems(v, t) ELSE IF v.k = "str" THEN "open" ELSE "no"
    [] t.t = "Iterable" -> IF v.k \in {"list", "tuple", "set", "frozenset"} THEN Elems(v, t) ELSE IF v.k = "dict" THEN Keys(v, t) ELSE IF v.k = "str" THEN "open" ELSE "no"
    [] t.t = "Callable" -> Bool(v.k = "fn")
    [] OTHER -> Bool(v.k \in Subs(t.t))

(* a run: nodes in order [n, ps, pty, rty, ret, boom]; overridden nodes are not executed *)
Needed(ns, final, ovr) ==
  LET k == Len(ns)
      N[i \in 0..k] == IF i = 0 THEN final \ ovr ELSE
        LET d == ns[k + 1 - i] IN IF d.n \in N[i-1] THEN N[i-1] \cup ({d.ps[j] : j \in DOMAIN d.ps} \ ovr) ELSE N[i-1] IN N[k]
ValOf(ns, ovr, n) == IF n \in DOMAIN ovr THEN ovr[n] ELSE ns[CHOOSE i \in DOMAIN ns : ns[i].n = n].ret
InOK(ns, ovr, d) == AllOf({Conf(ValOf(ns, ovr, d.ps[j]), d.pty[d.ps[j]]) : j \in DOMAIN d.ps})
OutOK(d) == Conf(d.ret, d.rty)
(* how each node ends: fine, an error, unreached, or open *)
Idx(ns, n) == CHOOSE i \in DOMAIN ns : ns[i].n = n
Outs(ns, ovr, cin, cout) ==
  LET k == Len(ns)
      O[i \in 1..k] ==
        LET d == ns[i]
            up == {O[Idx(ns, d.ps[j])] : j \in {q \in DOMAIN d.ps : d.ps[q] \notin DOMAIN ovr}}
            ci == IF cin THEN InOK(ns, ovr, d) ELSE "yes"
            co == IF cout THEN OutOK(d) ELSE "yes" IN
        IF d.n \in DOMAIN ovr THEN "fine"
        ELSE IF "open" \in up THEN "open"
        ELSE IF up \ {"fine"} # {} THEN "unreached"
        ELSE IF ci = "open" THEN "open" ELSE IF ci = "no" THEN "TypeError"
        ELSE IF d.boom # "" THEN d.boom
        ELSE IF co = "open" THEN "open" ELSE IF co = "no" THEN "TypeError" ELSE "fine"
  IN [i \in 1..k |-> O[i]]
Called(ns, ovr, cin, cout, i) ==
  LET o == Outs(ns, ovr, cin, cout)[i] IN o # "unreached" /\ ns[i].n \notin DOMAIN ovr /\ (cin => InOK(ns, ovr, ns[i]) = "yes")
=============================================================================
