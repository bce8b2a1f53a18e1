-------------------------------- MODULE IOMC --------------------------------
(* Design model: every small program with loaders and savers, every batch of at most two materializers, every request. *)
EXTENDS IO
CONSTANT MaxMats
VARIABLES T, ms, ins, ovr, done
vars == <<T, ms, ins, ovr, done>>
Lit(v) == [t |-> "lit", v |-> v]
Src(s) == [t |-> "src", s |-> s]
C(cls, types, req, opt, fields) == [cls |-> cls, types |-> types, req |-> req, opt |-> opt, fields |-> fields]
Reg == [load |-> [k1 |-> <<C("L1", <<"Any">>, <<"path">>, NoFn, <<"path">>), C("L2", <<"T2">>, <<>>, [p \in {"path"} |-> "d"], <<"path">>)>>],
        save |-> [k1 |-> <<C("S1", <<"Any">>, <<"path">>, NoFn, <<"path">>), C("S2", <<"T1">>, <<"path">>, [p \in {"key"} |-> "d"], <<"path", "key">>)>>]]
Sub == [T1 |-> <<"T1">>, T2 |-> <<"T2", "T1">>, T3 |-> <<"T3">>]
ArgS(ns) == {NoFn} \cup {[p \in {"path"} |-> x] : x \in {Lit("v")} \cup {Src(s) : s \in ns}}
Fn(n, ps, ty, loads, saves) == [k |-> "fn", n |-> n, ps |-> ps, ty |-> ty, pty |-> [p \in Rng(ps) |-> "T1"], dflt |-> NoFn, loads |-> loads, saves |-> saves]
Progs == {[reg |-> Reg, sub |-> Sub, cfg |-> NoFn, order |-> <<"a", "b", "x">>,
           decls |-> <<Fn("a", <<"x">>, ta, la, <<>>), Fn("b", pb, "T3", <<>>, sb)>>] :
            ta \in {"T1", "T2"}, pb \in {<<>>, <<"a">>, <<"a", "x">>},
            la \in {<<>>} \cup {<<[on |-> "x", kind |-> "k1", args |-> g]>> : g \in ArgS({"q"})},
            sb \in {<<>>} \cup {<<[id |-> "s", kind |-> "k1", args |-> g]>> : g \in ArgS({"a"})}}
Mats == {[k |-> "to", id |-> i, kind |-> "k1", deps |-> d, comb |-> c, cty |-> "T1", args |-> g] :
           i \in {"m", "n"}, d \in {<<"a">>, <<"b">>, <<"a", "b">>}, c \in {"", "J"}, g \in ArgS({"b"})}
        \cup {[k |-> "from", target |-> t, kind |-> "k1", args |-> g] : t \in {"a", "b", "x"}, g \in ArgS({"q"})}
Ins == {[x \in D |-> "in_" \o x] : D \in SUBSET {"x", "q"}}
Ovr == {NoFn, [x \in {"a"} |-> "ovr_a"]}
Init == T \in Progs /\ ProgOK(T) /\ ms = <<>> /\ ins = NoFn /\ ovr = NoFn /\ done = FALSE
Add == ~done /\ Len(ms) < MaxMats /\ \E m \in Mats : ms' = Append(ms, m) /\ UNCHANGED <<T, ins, ovr, done>>
Go == ~done /\ done' = TRUE /\ ins' \in Ins /\ ovr' \in Ovr /\ UNCHANGED <<T, ms>>
Next == Add \/ Go
Spec == Init /\ [][Next]_vars
G0 == FromDecls(T, 2)
H0 == With(T, G0, ms)
Ok == done /\ MatsOK(T, G0, ms)
OneFrom == \A i, j \in DOMAIN Froms(ms) : i # j => Froms(ms)[i].target # Froms(ms)[j].target
(* savers only: what the program's own nodes are worth and what is run for them stays the same *)
SaversTransparent == (Ok /\ Froms(ms) = <<>>) => \A n \in DOMAIN G0 :
   /\ H0[n] = G0[n]
   /\ Used(T, H0, {n}, ins, ovr) = Used(T, G0, {n}, ins, ovr)
   /\ Lacks(T, H0, {n}, ins, ovr) <=> Lacks(T, G0, {n}, ins, ovr)
   /\ ~Lacks(T, G0, {n}, ins, ovr) => Val(T, H0, ins, ovr, n) = Val(T, G0, ins, ovr, n)
(* every saver asked for is run, on what a plain request for its data would return *)
SaverSavesTheResult == Ok => \A i \in DOMAIN Tos(ms) : LET m == Tos(ms)[i] IN
   ~Lacks(T, H0, {m.id}, ins, ovr) =>
      /\ m.id \in Calls(T, H0, {m.id}, ins, ovr)
      /\ \A d \in Rng(m.deps) : ~Lacks(T, H0, {d}, ins, ovr) /\ d \in Used(T, H0, {m.id}, ins, ovr)
(* a loader put in place of a node: what the node needed is no longer run for it *)
LoaderReplaces == Ok => \A i \in DOMAIN Froms(ms) : LET t == Froms(ms)[i].target IN
   t \notin DOMAIN ovr => /\ Used(T, H0, {t}, ins, ovr) \subseteq {t, "load_data." \o t, "q"}
                          /\ ~Lacks(T, H0, {t}, ins, ovr) => Calls(T, H0, {t}, ins, ovr) = {"load_data." \o t}
(* the order of the batch does not matter *)
OrderFree == (done /\ Len(ms) = 2 /\ OneFrom) => LET sm == <<ms[2], ms[1]>> IN
   MatsOK(T, G0, ms) = MatsOK(T, G0, sm) /\ (MatsOK(T, G0, ms) => With(T, G0, ms) = With(T, G0, sm))
(* the most recent adapter made for the type is the one *)
Specific == \A ty \in {"T1", "T2", "T3"} : /\ LoaderFor(T, "k1", ty) = IF ty \in {"T1", "T2"} THEN 2 ELSE 1
                                           /\ SaverFor(T, "k1", ty) = IF ty \in {"T1", "T2"} THEN 2 ELSE 1
=============================================================================
