------------------------------ MODULE Adapters ------------------------------
(* What a run computes and calls when some functions raise: plainly, and under an adapter that turns errors into a sentinel.

   P.decls: functions in dependency order, [n, ps, dflt, role, acc, ret] with role in plain, expand, inner, collect (at most one block:
   expand, inner functions (all of them take the item), collect).  Values are texts; the value of a call is its text, unless `ret` says otherwise.
   C: [mode |-> "plain" | "graceful", sent, catch, all, inj]
   R: a run, [ins, ovr, final, boom (name or name@item |-> error), items, expat, experr] *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Has(f, k) == k \in DOMAIN f
Join(s) == IF s = <<>> THEN "" ELSE
           LET J[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE J[i-1] \o "," \o s[i] IN J[Len(s)]
ListText(s) == "[" \o Join(s) \o "]"
Supers(e) == CASE e = "E1" -> {"E1", "E", "Exception"} [] e = "E" -> {"E", "Exception"} [] OTHER -> {e, "Exception"}
Caught(C, e) == C.mode = "graceful" /\ C.catch \in Supers(e)
Down == "!"     \* what a function yields that raised what nobody caught

Decl(P, n) == P.decls[CHOOSE i \in DOMAIN P.decls : P.decls[i].n = n]
Names(P) == {P.decls[i].n : i \in DOMAIN P.decls}
(* what a request needs: backwards through the declarations *)
Needed(P, R) ==
  LET k == Len(P.decls)
      N[i \in 0..k] == IF i = 0 THEN Rng(R.final) \ DOMAIN R.ovr ELSE
        LET d == P.decls[k + 1 - i] IN IF d.n \in N[i-1] THEN N[i-1] \cup (Rng(d.ps) \ DOMAIN R.ovr) ELSE N[i-1]
  IN N[k] \cap Names(P)

(* one call of a function in an environment: its value, whether the body was called (and how), what it raised for good *)
Given(d, env) == SelectSeq(d.ps, LAMBDA p : Has(env, p))
CallText(d, env) == d.n \o "(" \o Join([i \in DOMAIN d.ps |-> IF Has(env, d.ps[i]) THEN env[d.ps[i]] ELSE d.dflt[d.ps[i]]]) \o ")"
Blocked(C, d, env) == C.mode = "graceful" /\ ~(d.acc /\ C.inj) /\ \E p \in Rng(Given(d, env)) : env[p] = C.sent
Broken(d, env) == \E p \in Rng(Given(d, env)) : env[p] = Down
Boom(R, d, env) == LET k == IF d.role = "inner" THEN d.n \o "@" \o env[d.item] ELSE d.n IN IF Has(R.boom, k) THEN R.boom[k] ELSE ""
One(C, R, d, env) ==
  IF Broken(d, env) THEN [v |-> Down, call |-> "", err |-> ""]
  ELSE IF Blocked(C, d, env) THEN [v |-> C.sent, call |-> "", err |-> ""]
  ELSE LET b == Boom(R, d, env) IN
       IF b = "" THEN [v |-> IF d.ret # "" THEN d.ret ELSE CallText(d, env), call |-> CallText(d, env), err |-> ""]
       ELSE IF Caught(C, b) THEN [v |-> C.sent, call |-> CallText(d, env), err |-> ""]
       ELSE [v |-> Down, call |-> CallText(d, env), err |-> b]
(* the items a block gets *)
Expand(C, R, d, env) ==
  IF Broken(d, env) THEN [items |-> <<>>, call |-> "", err |-> "", down |-> TRUE]
  ELSE IF Blocked(C, d, env) THEN [items |-> <<C.sent>>, call |-> "", err |-> "", down |-> FALSE]
  ELSE IF R.experr = "" THEN [items |-> R.items, call |-> CallText(d, env), err |-> "", down |-> FALSE]
  ELSE IF ~Caught(C, R.experr) THEN [items |-> <<>>, call |-> CallText(d, env), err |-> R.experr, down |-> TRUE]
  ELSE [items |-> IF C.all THEN SubSeq(R.items, 1, R.expat) \o <<C.sent>> ELSE <<C.sent>>, call |-> CallText(d, env), err |-> "", down |-> FALSE]

(* a state of the evaluation: values, calls made (a sequence, to be read as a bag), errors nobody caught, executions <<node, ok>> *)
Put(env, k, v) == [x \in DOMAIN env \cup {k} |-> IF x = k THEN v ELSE env[x]]
Add(st, n, o) == [st EXCEPT !.env = Put(st.env, n, o.v), !.calls = IF o.call = "" THEN @ ELSE Append(@, o.call), !.errs = IF o.err = "" THEN @ ELSE @ \cup {o.err},
                            !.ran = Append(@, <<n, IF o.v = Down THEN (IF o.err # "" THEN "Failure" ELSE "Skipped") ELSE "Success">>)]
Inner(P) == SelectSeq(P.decls, LAMBDA d : d.role = "inner")
RECURSIVE Chain(_, _, _, _, _)
Chain(C, R, ds, st, i) == IF i > Len(ds) THEN st ELSE Chain(C, R, ds, Add(st, ds[i].n, One(C, R, ds[i], st.env)), i + 1)
RECURSIVE Items(_, _, _, _, _, _, _)
Items(C, R, ds, st, it, items, acc) ==
  IF items = <<>> THEN [st |-> st, outs |-> acc] ELSE
  LET s1 == Chain(C, R, ds, [st EXCEPT !.env = Put(st.env, it, Head(items))], 1) IN
  Items(C, R, ds, [s1 EXCEPT !.env = st.env], it, Tail(items), Append(acc, s1.env))
RECURSIVE Go(_, _, _, _, _, _)
(* need: what is to be computed; blk: after the expand, the environments of the items *)
Go(P, C, R, need, st, i) ==
  IF i > Len(P.decls) THEN st ELSE
  LET d == P.decls[i] IN
  IF d.n \notin need \/ d.role = "inner" THEN Go(P, C, R, need, st, i + 1)
  ELSE IF d.role = "plain" THEN Go(P, C, R, need, Add(st, d.n, One(C, R, d, st.env)), i + 1)
  ELSE IF d.role = "expand" THEN
    LET x == Expand(C, R, d, st.env)
        s1 == [Add(st, d.n, [v |-> IF x.down THEN Down ELSE "", call |-> x.call, err |-> x.err]) EXCEPT !.env = st.env]
        ds == SelectSeq(Inner(P), LAMBDA q : q.n \in need)
        b == Items(C, R, ds, s1, d.n, x.items, <<>>) IN
    Go(P, C, R, need, [b.st EXCEPT !.outs = b.outs, !.down = x.down], i + 1)
  ELSE \* collect: its first parameter is the collected one
    LET c == d.ps[1]
        broken == st.down \/ \E k \in DOMAIN st.outs : st.outs[k][c] = Down
        e1 == Put(st.env, c, IF broken THEN Down ELSE ListText([k \in DOMAIN st.outs |-> st.outs[k][c]]))
        s2 == Add([st EXCEPT !.env = e1], d.n, One(C, R, d, e1)) IN
    Go(P, C, R, need, s2, i + 1)
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Run(P, C, R) == Go(P, C, R, Needed(P, R), [env |-> Over(R.ins, R.ovr), calls |-> <<>>, errs |-> {}, ran |-> <<>>, outs |-> <<>>, down |-> FALSE], 1)
=============================================================================
