----------------------------- MODULE AdaptersMC -----------------------------
(* Laws of Adapters.tla over all small programs (a line of functions, or one parallel block between two functions), failures and settings. *)
EXTENDS Adapters
CONSTANTS K, ItemsMax, BlockBooms, Wide, LErrs, AllAcc
VARIABLES P, C, R, Res, stage
vars == <<P, C, R, Res, stage>>
F(n, ps, role, acc) == [n |-> n, ps |-> ps, dflt |-> [x \in {} |-> ""], role |-> role, acc |-> acc, ret |-> "", item |-> "it"]
Nm == <<"a", "b", "c", "d">>
Lines == [1..K -> [ps : SUBSET (1..K), acc : BOOLEAN]]
RECURSIVE AsSeq(_, _)
AsSeq(S, i) == IF i = 0 THEN <<>> ELSE AsSeq(S, i-1) \o (IF i \in S THEN <<Nm[i]>> ELSE <<>>)
LineOf(f) == [decls |-> [i \in 1..K |-> F(Nm[i], <<"x">> \o AsSeq(f[i].ps \cap 1..(i-1), K), "plain", f[i].acc)]]
BlockOf(ac, wide) == [decls |-> << F("a", <<"x">>, "plain", FALSE), F("it", <<"a">>, "expand", FALSE), F("b", <<"it">>, "inner", ac[1]),
                             F("c", IF wide THEN <<"b", "a", "it">> ELSE <<"b", "it">>, "inner", ac[2]), F("col", <<"c">>, "collect", ac[3]), F("d", <<"col", "a">>, "plain", ac[4]) >>]
Cs == [mode : {"graceful"}, sent : {"S"}, catch : {"E", "E1"}, all : BOOLEAN, inj : BOOLEAN] \cup {[mode |-> "plain", sent |-> "S", catch |-> "E", all |-> TRUE, inj |-> TRUE]}
Accs == IF AllAcc THEN [1..4 -> BOOLEAN] ELSE {[i \in 1..4 |-> i = k] : k \in 0..4}
Trim(f) == [x \in {y \in DOMAIN f : f[y] # ""} |-> f[x]]
NoOvr == [x \in {} |-> ""]
Init == /\ stage = 0 /\ C = NoOvr /\ R = NoOvr /\ Res = NoOvr
        /\ P \in {LineOf(f) : f \in {g \in Lines : \A i \in 1..K : g[i].ps \subseteq 1..(i-1)}} \cup {BlockOf(ac, w) : ac \in Accs, w \in Wide}
Choose == stage = 0 /\ stage' = 1 /\ C' \in Cs /\ UNCHANGED <<P, R, Res>>
Fail(r) == stage = 1 /\ stage' = 2 /\ R' = r /\ Res' = Run(P, C, r) /\ UNCHANGED <<P, C>>
Line == P.decls[2].role # "expand" /\ \E b \in [{Nm[i] : i \in 1..K} -> LErrs], v \in {"v", "S"}, o \in {0, 1} :
          Fail([ins |-> [x \in {"x"} |-> v], ovr |-> IF o = 0 THEN NoOvr ELSE [q \in {"a"} |-> "w"], final |-> <<Nm[K]>>, boom |-> Trim(b), items |-> <<>>, experr |-> "", expat |-> 0])
Block == P.decls[2].role = "expand" /\ \E n \in 0..ItemsMax, xe \in {"", "E", "E2"}, at \in 0..ItemsMax, b \in [BlockBooms -> {"", "E1", "E2"}] :
          at <= n /\ (xe = "" => at = 0) /\
          Fail([ins |-> [x \in {"x"} |-> "v"], ovr |-> NoOvr, final |-> <<"d">>, boom |-> Trim(b), items |-> SubSeq(<<"i1", "i2", "S">>, 1, n), experr |-> xe, expat |-> at])
Next == Choose \/ Line \/ Block
Spec == Init /\ [][Next]_vars
Done == stage = 2
(* without failures (and values that pass for one) nothing changes *)
Quiet == R.boom = NoOvr /\ R.experr = "" /\ C.sent \notin Rng(R.items) /\ \A x \in DOMAIN R.ins : R.ins[x] # C.sent
Transparent == (Done /\ Quiet) => Res = Run(P, [C EXCEPT !.mode = "plain"], R)
(* what is caught never comes out, what is not always does *)
CaughtStays == Done => \A x \in Res.errs : ~Caught(C, x)
OutcomeTotal == Done => ((Res.errs = {}) <=> Res.env[R.final[1]] # Down)
(* a function without the permission is never called with a sentinel *)
NeverFed == (Done /\ C.mode = "graceful") => \A i \in DOMAIN P.decls : P.decls[i].role = "plain" /\ ~(P.decls[i].acc /\ C.inj) /\ P.decls[i].n \in Needed(P, R) =>
              LET d == P.decls[i] IN (\E p \in Rng(d.ps) : Has(Res.env, p) /\ Res.env[p] = C.sent) => (Has(Res.env, d.n) => Res.env[d.n] \in {C.sent, Down})
(* nothing is called twice with the same arguments, unless items are equal *)
Once == (Done /\ ~(R.experr # "" /\ C.sent \in Rng(R.items))) => \A i, j \in DOMAIN Res.calls : i # j => Res.calls[i] # Res.calls[j]
(* a block without failure of its own passes on as many values as it got items *)
Keeps == (Done /\ P.decls[2].role = "expand" /\ R.experr = "" /\ Res.errs = {} /\ Res.env["a"] # C.sent) => Len(Res.outs) = Len(R.items)
Fails == (Done /\ P.decls[2].role = "expand" /\ R.experr # "" /\ Caught(C, R.experr) /\ Res.errs = {} /\ Res.env["a"] # C.sent) => Len(Res.outs) = IF C.all THEN R.expat + 1 ELSE 1
=============================================================================
