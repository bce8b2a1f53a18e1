------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* What graph a set of modules and a configuration denote, and what the    *)
(* questions one can ask about it mean.                                    *)
(*                                                                         *)
(* A function is a record                                                  *)
(*   [n, ps, ty, opt, req, pty, dflt, tags, doc, own, mod]                 *)
(*   n     its name           ps   its parameters, in order                *)
(*   ty    its return type    pty  parameter |-> type                      *)
(*   dflt  optional parameter |-> default (a value, see below)             *)
(*   tags  tag |-> sequence of values         doc its documentation        *)
(*   own   TRUE if it is public and defined in the module (not private,    *)
(*         not imported)                                                   *)
(*   mod   the module it is defined in                                     *)
(* M maps module names to sequences of functions.  A build is              *)
(*   [ms, cfg, allow, lenient]: modules in order, configuration,           *)
(*   later modules may redefine, type checks switched off.                 *)
(* Values are strings: the value of a function node is the text of the     *)
(* call that computes it.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
NoFn == [x \in {} |-> ""]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Flat(_, _)
Flat(M, ms) == IF ms = <<>> THEN <<>>
               ELSE SelectSeq(M[Head(ms)], LAMBDA f : f.own) \o Flat(M, Tail(ms))

(* the definitions in force: later modules win, configured names are values *)
All(M, b)    == SelectSeq(Flat(M, b.ms), LAMBDA f : f.n \notin DOMAIN b.cfg)
Names(fs)    == {fs[i].n : i \in DOMAIN fs}
DefsOf(fs)   == [n \in Names(fs) |-> fs[Max({i \in DOMAIN fs : fs[i].n = n})]]
Defs(M, b)   == DefsOf(All(M, b))
Dup(M, b)    == \E i, j \in DOMAIN All(M, b) : i # j /\ All(M, b)[i].n = All(M, b)[j].n

Deps(D, n)   == IF n \in DOMAIN D THEN Rng(D[n].ps) ELSE {}
Outer(D)     == UNION {Deps(D, n) : n \in DOMAIN D} \ DOMAIN D
NodesOf(D, cfg) == DOMAIN D \cup Outer(D) \cup DOMAIN cfg
Req(f)       == Rng(f.ps) \ DOMAIN f.dflt

(*---------------------------- compatibility of types ----------------------------*)
(* Yes: this producer must be accepted for this parameter; No: it must be refused; *)
(* anything else is left open (e.g. an int producer for a float parameter).        *)
Members == [U_is |-> {"int","str"}, U_isf |-> {"int","str","float"}, O_int |-> {"int","None"}, U_if |-> {"int","float"}]
Simple  == {"int","bool","str","float","None"}
IsU(t)  == t \in DOMAIN Members
SubS(a, b) == a = b \/ (a = "bool" /\ b = "int")
Yes(p, t) ==
  \/ p = t \/ p = "Any" \/ t = "Any"
  \/ (t \in Simple /\ p \in Simple /\ SubS(t, p))
  \/ (IsU(p) /\ t \in Simple /\ \E m \in Members[p] : SubS(t, m))
  \/ (p = "list" /\ t \in {"L_int","L_str"}) \/ (p = "dict" /\ t = "D_si")
  \/ (p = "list" /\ t = "sublist")
Num == {"int","bool","float"}
No(p, t) ==
  /\ ~Yes(p, t)
  /\ \/ (p \in Simple /\ t \in Simple /\ ~(p = "float" /\ t \in Num))
     \/ (p \in Simple /\ t \notin Simple /\ t # "Any")                          \* Optional[int] for int, List[int] for int
     \/ (IsU(p) /\ t \in Simple /\ \A m \in Members[p] : ~SubS(t, m) /\ ~(m = "float" /\ t \in Num))
     \/ (IsU(p) /\ t \in {"list","dict","L_int","L_str","D_si","sublist"})
     \/ (p \in {"list","dict","L_int","L_str","D_si","sublist"} /\ (t \in Simple \/ IsU(t)))
     \/ {p, t} = {"L_int","L_str"} \/ {p, t} = {"list","dict"} \/ {p, t} = {"sublist","dict"}
     \/ (p \in {"L_int","L_str"} /\ t \in {"dict","D_si"}) \/ (t \in {"L_int","L_str"} /\ p \in {"dict","D_si"})
     \/ {p, t} = {"list","D_si"} \/ {p, t} = {"sublist","D_si"} \/ (p = "sublist" /\ t = "list")

Asks(D, x)      == {D[n].pty[x] : n \in {m \in DOMAIN D : x \in Deps(D, m)}}
EdgeTypes(D)    == {<<D[n].pty[d], D[d].ty>> : <<n, d>> \in {e \in (DOMAIN D) \X (DOMAIN D) : e[2] \in Deps(D, e[1])}}
(* an outside value several functions ask for: one of them must ask for a type all others are content with *)
Least(R)        == {r \in R : \A s \in R : ~No(s, r)}
InputsYes(D)    == \A x \in Outer(D) : \A r, s \in Asks(D, x) : Yes(r, s) \/ Yes(s, r)
InputsNo(D)     == \E x \in Outer(D) : Least(Asks(D, x)) = {} /\ "Any" \notin Asks(D, x)
MustBuild(M, b) == /\ Dup(M, b) => b.allow
                   /\ LET D == Defs(M, b) IN
                      b.lenient \/ ((\A e \in EdgeTypes(D) : Yes(e[1], e[2])) /\ InputsYes(D))
MustRefuse(M, b) == \/ (Dup(M, b) /\ ~b.allow)
                    \/ LET D == Defs(M, b) IN
                       ~b.lenient /\ ((\E e \in EdgeTypes(D) : No(e[1], e[2])) \/ InputsNo(D))
TypeOK(D, cfg, lenient, n, t) ==
  CASE n \in DOMAIN D  -> t = D[n].ty
    [] n \in Outer(D)  -> t \in Asks(D, n) /\ (lenient \/ "Any" \in Asks(D, n) \/ t \in Least(Asks(D, n)))
    [] OTHER           -> t = "Any"

(*--------------------------------- questions ---------------------------------*)
RECURSIVE Close(_, _, _)
Close(F, S, seen) == IF S = {} THEN seen ELSE LET nx == UNION {F[n] : n \in S} \ (seen \cup S) IN Close(F, nx, seen \cup S)
UpMap(D, N)   == [n \in N |-> Deps(D, n)]
DownMap(D, N) == [n \in N |-> {m \in DOMAIN D : n \in Deps(D, m)}]
Up(D, cfg, S)   == Close(UpMap(D, NodesOf(D, cfg)), S, {})
Down(D, cfg, S) == Close(DownMap(D, NodesOf(D, cfg)), S, {})
Path(D, cfg, a, b) == Down(D, cfg, {a}) \cap Up(D, cfg, {b})
OnCycle(D, cfg, n) == n \in Close(UpMap(D, NodesOf(D, cfg)), Deps(D, n), {})
Cyclic(D, cfg, S)  == \E n \in Up(D, cfg, S) : OnCycle(D, cfg, n)
TagsOf(D, n)   == IF n \in DOMAIN D THEN D[n].tags ELSE NoFn
(* a filter maps tags to sequences of values; the empty sequence stands for "any value" *)
Matches(tags, q) == \A k \in DOMAIN q : k \in DOMAIN tags /\ (q[k] = <<>> \/ Rng(q[k]) \cap Rng(tags[k]) # {})
Listed(D, cfg, q) == {n \in NodesOf(D, cfg) : Matches(TagsOf(D, n), q)}

(*--------------------------------- requests ---------------------------------*)
(* nodes a request uses: optional outside values only when given; overridden ones are values *)
Given(D, cfg, ins) == DOMAIN cfg \cup DOMAIN ins
UseMap(D, cfg, ins, ovr) ==
  [n \in NodesOf(D, cfg) |->
     IF n \notin DOMAIN D \/ n \in DOMAIN ovr THEN {}
     ELSE {d \in Deps(D, n) : ~(d \notin DOMAIN D /\ d \in DOMAIN D[n].dflt /\ d \notin Given(D, cfg, ins))}]
Used(D, cfg, final, ins, ovr) == Close(UseMap(D, cfg, ins, ovr), final, {})
Lacks(D, cfg, final, ins, ovr) ==
  \E x \in Used(D, cfg, final, ins, ovr) : x \notin DOMAIN D /\ x \notin Given(D, cfg, ins) /\ x \notin DOMAIN ovr
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))
RECURSIVE Val(_, _, _, _, _)
Val(D, cfg, ins, ovr, n) ==
  CASE n \in DOMAIN ovr -> ovr[n]
    [] n \in DOMAIN cfg -> cfg[n]
    [] n \in DOMAIN D   ->
        D[n].mod \o "." \o n \o "(" \o
        Join([i \in DOMAIN D[n].ps |->
               LET p == D[n].ps[i] IN
               IF p \notin DOMAIN D /\ p \notin Given(D, cfg, ins) /\ p \notin DOMAIN ovr /\ p \in DOMAIN D[n].dflt
               THEN D[n].dflt[p] ELSE Val(D, cfg, ins, ovr, p)]) \o ")"
    [] OTHER -> ins[n]
Calls(D, cfg, final, ins, ovr) == {n \in Used(D, cfg, final, ins, ovr) : n \in DOMAIN D /\ n \notin DOMAIN ovr}
=============================================================================
