------------------------------- MODULE TypeMC -------------------------------
(* Laws of conformance over all values and types of depth two. *)
EXTENDS TypeCheck
VARIABLES v, t, u, stage
vars == <<v, t, u, stage>>
V0 == {[k |-> c, xs |-> <<>>] : c \in {"int", "bool", "str", "none", "A", "B"}}
VSeq == {<<>>} \cup {<<a>> : a \in V0} \cup {<<a, b>> : a, b \in {[k |-> c, xs |-> <<>>] : c \in {"int", "str", "B"}}}
V1 == V0 \cup {[k |-> c, xs |-> s] : c \in {"list", "tuple", "set"}, s \in VSeq}
         \cup {[k |-> "dict", xs |-> IF n = 0 THEN <<>> ELSE <<<<a, b>>>>] : n \in 0..1, a \in {[k |-> "int", xs |-> <<>>], [k |-> "str", xs |-> <<>>]}, b \in {[k |-> "int", xs |-> <<>>], [k |-> "none", xs |-> <<>>]}}
Ty(n, as) == [t |-> n, as |-> as, ls |-> <<>>]
T0 == {Ty(c, <<>>) : c \in {"Any", "int", "bool", "str", "none", "A", "B", "list", "tuple", "dict"}}
T1 == T0 \cup {Ty(c, <<a>>) : c \in {"List", "Set", "TupleOf", "Sequence", "Iterable", "Annotated", "Tuple", "Union"}, a \in T0}
         \cup {Ty(c, <<a, b>>) : c \in {"Tuple", "Union", "Dict", "Mapping"}, a, b \in {Ty(x, <<>>) : x \in {"Any", "int", "str", "none", "B"}}}
Init == v \in V1 /\ t = Ty("Any", <<>>) /\ u = Ty("Any", <<>>) /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ t' \in T1 /\ u' \in T0 /\ v' = v
Spec == Init /\ [][Next]_vars
Le(a, b) == a = b \/ a = "no" \/ (a = "open" /\ b = "yes")
AnyTakesAll == Conf(v, Ty("Any", <<>>)) = "yes"
UnionTakesMore == Le(Conf(v, t), Conf(v, Ty("Union", <<t, u>>))) /\ Le(Conf(v, u), Conf(v, Ty("Union", <<t, u>>)))
UnionTakesNoMore == Conf(v, Ty("Union", <<t, u>>)) = "yes" => "yes" \in {Conf(v, t), Conf(v, u)}
UnionSymmetric == Conf(v, Ty("Union", <<t, u>>)) = Conf(v, Ty("Union", <<u, t>>))
AnnotatedIsNothing == Conf(v, Ty("Annotated", <<t>>)) = Conf(v, t)
ListIsSequence == Le(Conf(v, Ty("List", <<u>>)), Conf(v, Ty("Sequence", <<u>>))) /\ Le(Conf(v, Ty("Sequence", <<u>>)), Conf(v, Ty("Iterable", <<u>>)))
ListIsList == Conf(v, Ty("List", <<u>>)) = "yes" => Conf(v, Ty("list", <<>>)) = "yes"
TupleLengths == (Conf(v, Ty("Tuple", <<u, u>>)) = "yes") <=> (v.k = "tuple" /\ Len(v.xs) = 2 /\ Conf(v, Ty("TupleOf", <<u>>)) = "yes")
MoreTakesMore == Le(Conf(v, Ty("List", <<Ty("B", <<>>)>>)), Conf(v, Ty("List", <<Ty("A", <<>>)>>)))
=============================================================================
