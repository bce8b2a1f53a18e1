--------------------------------- MODULE IO ---------------------------------
(***************************************************************************)
(* Loading and saving.  A program is a sequence of declarations            *)
(*   [k, n, ps, ty, pty, dflt, loads, saves]                               *)
(*   k      "fn" | "dataloader" | "datasaver"                              *)
(*   loads  sequence of [on, kind, args]      (@load_from on a parameter)  *)
(*   saves  sequence of [id, kind, args]      (@save_to)                   *)
(* and materializers                                                       *)
(*   [k |-> "to", id, kind, deps, comb, cty, args]                         *)
(*   [k |-> "from", target, kind, args]                                    *)
(* args maps adapter arguments to [t |-> "lit", v] or [t |-> "src", s].    *)
(* T.reg.load / T.reg.save map kinds to sequences of adapter classes       *)
(*   [cls, types, req, opt]     opt: argument |-> default value            *)
(* in the order of registration.  T.sub maps a type to its supertypes      *)
(* (itself included).  Values are texts.                                   *)
(*                                                                         *)
(* A graph maps names to nodes                                             *)
(*   [k |-> "fn", ps, src, dflt, ty]  src: parameter |-> node              *)
(*   [k |-> "load", c, args, ty]      value is the pair (data, metadata)   *)
(*   [k |-> "first", of, ty]          the data of such a pair              *)
(*   [k |-> "save", c, args, data]    value is the metadata                *)
(*   [k |-> "join", b, deps, ty]                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
NoFn == [x \in {} |-> ""]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(*------------------------- which adapter is meant -------------------------*)
SuperOf(sub, t) == IF t \in DOMAIN sub THEN Rng(sub[t]) ELSE {t}
CanLoad(sub, c, ty) == \E x \in Rng(c.types) : x # "Any" /\ ty \in SuperOf(sub, x)
CanSave(sub, c, ty) == \E x \in Rng(c.types) : x = "Any" \/ x \in SuperOf(sub, ty)
AnyOf(c) == "Any" \in Rng(c.types)
(* the last registered one that is made for the type; if there is none, the last one that takes anything *)
Pick(cs, fits(_)) == LET S == {i \in DOMAIN cs : fits(cs[i])}
                         A == {i \in DOMAIN cs : AnyOf(cs[i])} IN
                     IF S # {} THEN Max(S) ELSE IF A # {} THEN Max(A) ELSE 0
LoaderFor(T, kind, ty) == LET cs == T.reg.load[kind] IN Pick(cs, LAMBDA c : CanLoad(T.sub, c, ty))
SaverFor(T, kind, ty)  == LET cs == T.reg.save[kind] IN Pick(cs, LAMBDA c : CanSave(T.sub, c, ty))
ArgsOK(c, args) == Rng(c.req) \subseteq DOMAIN args /\ DOMAIN args \subseteq Rng(c.req) \cup DOMAIN c.opt
LoadOK(T, kind, ty, args) == LET i == LoaderFor(T, kind, ty) IN i # 0 /\ ArgsOK(T.reg.load[kind][i], args)
SaveOK(T, kind, ty, args) == LET i == SaverFor(T, kind, ty) IN i # 0 /\ ArgsOK(T.reg.save[kind][i], args)
LoadNode(T, kind, ty, args) == [k |-> "load", c |-> T.reg.load[kind][LoaderFor(T, kind, ty)], args |-> args, ty |-> ty]
SaveNode(T, kind, ty, args, d) == [k |-> "save", c |-> T.reg.save[kind][SaverFor(T, kind, ty)], args |-> args, data |-> d, ty |-> "dict"]

(*--------------------------------- graphs ---------------------------------*)
DeclOK(T, d) == /\ \A i \in DOMAIN d.loads : LoadOK(T, d.loads[i].kind, d.pty[d.loads[i].on], d.loads[i].args)
                /\ \A i \in DOMAIN d.saves : SaveOK(T, d.saves[i].kind, d.ty, d.saves[i].args)
SelName(d, p) == d.n \o ".select_data." \o p
RECURSIVE AddLoads(_, _, _)
AddLoads(T, d, i) ==
  IF i > Len(d.loads) THEN NoFn
  ELSE LET x == d.loads[i]  ty == d.pty[x.on]  ln == d.n \o ".load_data." \o x.on IN
       Over(Put(Put(NoFn, ln, LoadNode(T, x.kind, ty, x.args)), SelName(d, x.on), [k |-> "first", of |-> ln, ty |-> ty]),
            AddLoads(T, d, i + 1))
RECURSIVE AddSaves(_, _, _)
AddSaves(T, d, i) == IF i > Len(d.saves) THEN NoFn
                     ELSE Put(AddSaves(T, d, i + 1), d.saves[i].id, SaveNode(T, d.saves[i].kind, d.ty, d.saves[i].args, d.n))
DeclNodes(T, d) ==
  LET loaded == {d.loads[i].on : i \in DOMAIN d.loads}
      src == [p \in Rng(d.ps) |-> IF p \in loaded THEN SelName(d, p) ELSE p]
      f == [k |-> "fn", f |-> d.n, ps |-> d.ps, src |-> src, dflt |-> d.dflt, ty |-> d.ty, kind |-> d.k] IN
  Over(IF d.k = "dataloader" THEN Put(Put(NoFn, d.n \o ".loader", [f EXCEPT !.ty = "pair"]), d.n, [k |-> "first", of |-> d.n \o ".loader", ty |-> d.ty])
       ELSE Put(NoFn, d.n, f),
       Over(AddLoads(T, d, 1), AddSaves(T, d, 1)))
RECURSIVE FromDecls(_, _)
FromDecls(T, i) == IF i = 0 THEN NoFn ELSE Over(FromDecls(T, i - 1), DeclNodes(T, T.decls[i]))
ProgOK(T) == \A i \in DOMAIN T.decls : DeclOK(T, T.decls[i])

Srcs(args) == {args[a].s : a \in {x \in DOMAIN args : args[x].t = "src"}}
ReqSrcs(c, args) == {args[a].s : a \in {x \in DOMAIN args : args[x].t = "src" /\ x \in Rng(c.req)}}
Deps(G, n) ==
  IF n \notin DOMAIN G THEN {} ELSE
  LET d == G[n] IN
  CASE d.k = "fn" -> {d.src[p] : p \in Rng(d.ps)}
    [] d.k = "load" -> Srcs(d.args)
    [] d.k = "first" -> {d.of}
    [] d.k = "save" -> Srcs(d.args) \cup {d.data}
    [] d.k = "join" -> Rng(d.deps)
ReqDeps(G, n) ==
  IF n \notin DOMAIN G THEN {} ELSE
  LET d == G[n] IN
  CASE d.k = "fn" -> {d.src[p] : p \in {q \in Rng(d.ps) : q \notin DOMAIN d.dflt}}
    [] d.k = "load" -> ReqSrcs(d.c, d.args)
    [] d.k = "first" -> {d.of}
    [] d.k = "save" -> ReqSrcs(d.c, d.args) \cup {d.data}
    [] d.k = "join" -> Rng(d.deps)
Outer(G) == UNION {Deps(G, n) : n \in DOMAIN G} \ DOMAIN G
Nodes(T, G) == DOMAIN G \cup Outer(G) \cup DOMAIN T.cfg
(* the type of an outside value: that of the parameters asking for it *)
AskType(G, T, x) ==
  LET A == {T.decls[i].pty[x] : i \in {j \in DOMAIN T.decls : x \in Rng(T.decls[j].ps) /\ x \notin {T.decls[j].loads[q].on : q \in DOMAIN T.decls[j].loads}}} IN
  IF A = {} THEN "Any" ELSE CHOOSE t \in A : TRUE
TypeOf(T, G, x) == IF x \in DOMAIN G THEN G[x].ty ELSE AskType(G, T, x)

(*----------------------------- materializers -----------------------------*)
Tos(ms)   == SelectSeq(ms, LAMBDA m : m.k = "to")
Froms(ms) == SelectSeq(ms, LAMBDA m : m.k = "from")
ToIds(m)  == {m.id} \cup (IF m.comb # "" THEN {m.id \o "_build_result"} ELSE {})
ToOK(T, G, m) ==
  /\ Rng(m.deps) \subseteq Nodes(T, G)
  /\ m.comb = "" => Len(m.deps) = 1
  /\ ToIds(m) \cap Nodes(T, G) = {}
  /\ (Rng(m.deps) \subseteq Nodes(T, G) /\ m.deps # <<>>) =>
       SaveOK(T, m.kind, IF m.comb = "" THEN TypeOf(T, G, m.deps[1]) ELSE m.cty, m.args)
ToNodes(T, G, m) ==
  LET jn == m.id \o "_build_result" IN
  IF m.comb = "" THEN Put(NoFn, m.id, SaveNode(T, m.kind, TypeOf(T, G, m.deps[1]), m.args, m.deps[1]))
  ELSE Put(Put(NoFn, jn, [k |-> "join", b |-> m.comb, deps |-> m.deps, ty |-> m.cty]), m.id, SaveNode(T, m.kind, m.cty, m.args, jn))
FromOK(T, G, m) == m.target \in Nodes(T, G) /\ LoadOK(T, m.kind, TypeOf(T, G, m.target), m.args)
FromNodes(T, G, m) ==
  LET ln == "load_data." \o m.target  ty == TypeOf(T, G, m.target) IN
  Put(Put(NoFn, ln, LoadNode(T, m.kind, ty, m.args)), m.target, [k |-> "first", of |-> ln, ty |-> ty])
RECURSIVE AddTos(_, _, _, _)
AddTos(T, G, ms, i) == IF i = 0 THEN G ELSE Over(AddTos(T, G, ms, i - 1), ToNodes(T, G, ms[i]))
RECURSIVE AddFroms(_, _, _, _)
AddFroms(T, G, ms, i) == IF i = 0 THEN G ELSE Over(AddFroms(T, G, ms, i - 1), FromNodes(T, G, ms[i]))
DupIds(ms) == \E i, j \in DOMAIN ms : i # j /\ ToIds(ms[i]) \cap ToIds(ms[j]) # {}
MatsOK(T, G, ms) ==
  /\ \A i \in DOMAIN Tos(ms) : ToOK(T, G, Tos(ms)[i])
  /\ ~DupIds(Tos(ms))
  /\ LET H == AddTos(T, G, Tos(ms), Len(Tos(ms))) IN \A i \in DOMAIN Froms(ms) : FromOK(T, H, Froms(ms)[i])
With(T, G, ms) == LET H == AddTos(T, G, Tos(ms), Len(Tos(ms))) IN AddFroms(T, H, Froms(ms), Len(Froms(ms)))

(*--------------------------------- requests --------------------------------*)
Given(T, ins) == DOMAIN T.cfg \cup DOMAIN ins
UseMap(T, G, ins, ovr) ==
  [n \in Nodes(T, G) |->
     IF n \notin DOMAIN G \/ n \in DOMAIN ovr THEN {}
     ELSE ReqDeps(G, n) \cup {d \in Deps(G, n) : d \in DOMAIN G \/ d \in Given(T, ins)}]
RECURSIVE Close(_, _, _)
Close(F, S, seen) == IF S = {} THEN seen ELSE LET nx == UNION {F[n] : n \in S} \ (seen \cup S) IN Close(F, nx, seen \cup S)
Used(T, G, final, ins, ovr) == Close(UseMap(T, G, ins, ovr), final \cap Nodes(T, G), {})
Lacks(T, G, final, ins, ovr) ==
  \/ final \ Nodes(T, G) # {}
  \/ \E x \in Used(T, G, final, ins, ovr) : x \notin DOMAIN G /\ x \notin Given(T, ins) /\ x \notin DOMAIN ovr
Calls(T, G, final, ins, ovr) == {n \in Used(T, G, final, ins, ovr) : n \in DOMAIN G /\ n \notin DOMAIN ovr /\ G[n].k # "first"}

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))
RECURSIVE SortedSeq(_, _)
(* names in the order the scenario lists them *)
SortedSeq(order, S) == SelectSeq(order, LAMBDA x : x \in S)
RECURSIVE Val(_, _, _, _, _)
Arg(T, G, ins, ovr, c, args, a) ==
  IF a \notin DOMAIN args THEN c.opt[a]
  ELSE IF args[a].t = "lit" THEN args[a].v
  ELSE LET s == args[a].s IN
       IF s \notin DOMAIN G /\ s \notin Given(T, ins) /\ s \notin DOMAIN ovr THEN c.opt[a] ELSE Val(T, G, ins, ovr, s)
ArgText(T, G, ins, ovr, c, args) ==
  Join([i \in DOMAIN c.fields |-> c.fields[i] \o "=" \o Arg(T, G, ins, ovr, c, args, c.fields[i])])
Val(T, G, ins, ovr, n) ==
  IF n \in DOMAIN ovr THEN ovr[n]
  ELSE IF n \notin DOMAIN G THEN (IF n \in DOMAIN T.cfg THEN T.cfg[n] ELSE ins[n])
  ELSE LET d == G[n] IN
  CASE d.k = "fn" ->
         (IF d.kind = "datasaver" THEN "M:" ELSE "") \o d.f \o "(" \o Join([i \in DOMAIN d.ps |->
            LET p == d.ps[i]  s == d.src[p] IN
            IF s \notin DOMAIN G /\ s \notin Given(T, ins) /\ s \notin DOMAIN ovr /\ p \in DOMAIN d.dflt THEN d.dflt[p]
            ELSE Val(T, G, ins, ovr, s)]) \o ")"
    [] d.k = "load"  -> "L:" \o d.c.cls \o "(" \o ArgText(T, G, ins, ovr, d.c, d.args) \o ";" \o d.ty \o ")"
    [] d.k = "first" -> Val(T, G, ins, ovr, d.of)
    [] d.k = "save"  -> "S:" \o d.c.cls \o "(" \o Val(T, G, ins, ovr, d.data) \o ";" \o ArgText(T, G, ins, ovr, d.c, d.args) \o ")"
    [] d.k = "join"  -> "J:" \o d.b \o "(" \o Join([i \in DOMAIN SortedSeq(T.order, Rng(d.deps)) |->
                          LET x == SortedSeq(T.order, Rng(d.deps))[i] IN x \o "=" \o Val(T, G, ins, ovr, x)]) \o ")"
=============================================================================
