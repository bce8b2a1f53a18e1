-------------------------------- MODULE Cols --------------------------------
(* Functions decorated with with_columns: the dataframe parameter is replaced by the dataframe with computed columns.

   A frame is a sequence of [c, v]: column name and values (texts, one per row).
   W: a decorated function [fn, df, ns, mode ("cols" | "input"), cols, fns, all (no select), sel, extra].
   fns: [n, ps, when (<<key, value>> or <<>>), kind ("col" | "one"), get]; kind one: a plain value; get: reads that column of the frame itself.
   A program: outer (plain functions [n, ps] giving texts), ws (decorated functions, each may take an earlier one's frame). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Has(f, k) == k \in DOMAIN f
Join(s, by) == IF s = <<>> THEN "" ELSE LET J[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE J[i-1] \o by \o s[i] IN J[Len(s)]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET r == Uniq(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Rng(r) THEN r ELSE Append(r, s[Len(s)])

(* frames *)
ColsOf(D) == [i \in DOMAIN D |-> D[i].c]
At(D, c) == D[CHOOSE i \in DOMAIN D : D[i].c = c].v
Assign(D, c, v) == IF c \in Rng(ColsOf(D)) THEN [i \in DOMAIN D |-> IF D[i].c = c THEN [c |-> c, v |-> v] ELSE D[i]] ELSE Append(D, [c |-> c, v |-> v])
RECURSIVE AssignAll(_, _, _)
AssignAll(D, names, vals) == IF names = <<>> THEN D ELSE AssignAll(Assign(D, Head(names), vals[Head(names)]), Tail(names), vals)

(* which functions there are under a configuration *)
On(f, cfg) == f.when = <<>> \/ (Has(cfg, f.when[1]) /\ cfg[f.when[1]] = f.when[2])
Active(W, cfg) == SelectSeq(W.fns, LAMBDA f : On(f, cfg))
FnNames(W, cfg) == Uniq([i \in DOMAIN Active(W, cfg) |-> Active(W, cfg)[i].n])
Fn(W, cfg, n) == LET A == Active(W, cfg) IN A[CHOOSE i \in DOMAIN A : A[i].n = n]
Given(W) == IF W.mode = "cols" THEN W.cols ELSE <<>>
Clash(W, cfg) == Rng(Given(W)) \cap Rng(FnNames(W, cfg)) # {} \/ Len(Active(W, cfg)) # Cardinality(Rng(FnNames(W, cfg)))
Selected(W, cfg) == IF W.all THEN Given(W) \o SelectSeq(FnNames(W, cfg), LAMBDA n : Fn(W, cfg, n).kind = "col") ELSE W.sel
(* what the selection needs *)
Deps(W, cfg, n) == IF n \in Rng(Given(W)) THEN {} ELSE Rng(Fn(W, cfg, n).ps)
RECURSIVE Close(_, _, _)
Close(W, cfg, S) == LET T == S \cup (UNION {Deps(W, cfg, n) : n \in S} \cap (Rng(Given(W)) \cup Rng(FnNames(W, cfg)))) IN IF T = S THEN S ELSE Close(W, cfg, T)
Need(W, cfg) == Close(W, cfg, Rng(Selected(W, cfg)))
(* (with no selection every function is there, needed or not) *)
Offered(W, cfg) == IF W.all THEN Rng(Given(W)) \cup Rng(FnNames(W, cfg)) ELSE Need(W, cfg)

(* values: [k |-> "col", v |-> seq] or [k |-> "one", v |-> text] *)
RowOf(x, r) == IF x.k = "col" THEN x.v[r] ELSE x.v
Show(x) == IF x.k = "col" THEN "[" \o Join(x.v, ";") \o "]" ELSE x.v
RECURSIVE Val(_, _, _, _, _)
Val(W, cfg, D, env, n) ==
  IF n \in Rng(Given(W)) THEN [k |-> "col", v |-> At(D, n)]
  ELSE IF n \notin Rng(FnNames(W, cfg)) THEN [k |-> "one", v |-> env[n]]
  ELSE LET f == Fn(W, cfg, n) IN
       IF f.get # "" THEN [k |-> "col", v |-> [r \in 1..Len(At(D, f.get)) |-> n \o "(" \o At(D, f.get)[r] \o ")"]]
       ELSE LET a == [i \in DOMAIN f.ps |-> Val(W, cfg, D, env, f.ps[i])] IN
            IF f.kind = "one" THEN [k |-> "one", v |-> n \o "(" \o Join([i \in DOMAIN a |-> a[i].v], ",") \o ")"]
            ELSE [k |-> "col", v |-> [r \in 1..(IF D = <<>> THEN 0 ELSE Len(D[1].v)) |-> n \o "(" \o Join([i \in DOMAIN a |-> RowOf(a[i], r)], ",") \o ")"]]
CallText(W, cfg, D, env, n) ==
  LET f == Fn(W, cfg, n) IN
  n \o "(" \o (IF f.get # "" THEN "frame" ELSE Join([i \in DOMAIN f.ps |-> Show(Val(W, cfg, D, env, f.ps[i]))], ",")) \o ")"
(* columns the frame lacks *)
Lacks(W, cfg, D) == \E n \in Need(W, cfg) : LET c == IF n \in Rng(Given(W)) THEN n ELSE Fn(W, cfg, n).get IN c # "" /\ c \notin Rng(ColsOf(D))
Frame(W, cfg, D, env) == LET s == Selected(W, cfg) IN AssignAll(D, s, [n \in Rng(s) |-> Val(W, cfg, D, env, n).v])

(* plain functions around *)
RECURSIVE Outer(_, _, _)
Outer(fs, env, i) == IF i > Len(fs) THEN env ELSE Outer(fs, Put(env, fs[i].n, fs[i].n \o "(" \o Join([j \in DOMAIN fs[i].ps |-> env[fs[i].ps[j]]], ",") \o ")"), i + 1)
(* all frames of a program; a frame that cannot be computed is missing *)
RECURSIVE Frames(_, _, _, _, _)
Frames(ws, cfg, env, fr, i) ==
  IF i > Len(ws) THEN fr ELSE
  LET W == ws[i] IN
  IF ~Has(fr, W.df) \/ Lacks(W, cfg, fr[W.df]) THEN Frames(ws, cfg, env, fr, i + 1)
  ELSE Frames(ws, cfg, env, Put(fr, W.fn, Frame(W, cfg, fr[W.df], env)), i + 1)
=============================================================================
