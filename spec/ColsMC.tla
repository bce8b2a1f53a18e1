------------------------------- MODULE ColsMC -------------------------------
(* Laws of Cols.tla, over all small libraries of column functions and selections. *)
EXTENDS Cols
CONSTANTS N       \* functions
VARIABLES W, D, cfg, stage
vars == <<W, D, cfg, stage>>
Nm == <<"f", "g", "h", "i">>
Base == <<"a", "b">>
Env == [x \in {"s"} |-> "S"]
NoWhen == <<>>
Ps(S, i) == SelectSeq(<<"a", "b", "s", "f", "g", "h">>, LAMBDA x : x \in S /\ \A j \in i..4 : Nm[j] # x)
Fnz == [1..N -> [ps : SUBSET {"a", "b", "s", "f", "g"}, w : {0, 1}]]
Sels == {<<"f">>, <<"g">>, <<"g", "f">>, <<"a", "g">>}
Frm(w) == IF w THEN <<[c |-> "a", v |-> <<"1", "2">>], [c |-> "b", v |-> <<"3", "4">>], [c |-> "g", v |-> <<"5", "6">>]>> ELSE <<[c |-> "b", v |-> <<"3", "4">>], [c |-> "a", v |-> <<"1", "2">>]>>
Init == /\ stage = 0 /\ cfg \in {[x \in {"k"} |-> "1"], [x \in {} |-> ""]}
        /\ \E f \in Fnz, s \in Sels, al \in BOOLEAN : W = [fn |-> "out", df |-> "df", ns |-> "out", mode |-> "cols", cols |-> Base, all |-> al, sel |-> IF al THEN <<>> ELSE s, extra |-> <<>>,
              fns |-> [i \in 1..N |-> [n |-> Nm[i], ps |-> Ps(f[i].ps, i), when |-> IF f[i].w = 1 THEN <<"k", "1">> ELSE NoWhen, kind |-> "col", get |-> ""]]]
        /\ D \in {Frm(TRUE), Frm(FALSE)}
Ok == /\ \A n \in Rng(W.sel) : n \in Rng(Base) \cup Rng(FnNames(W, cfg))
      /\ \A i \in DOMAIN Active(W, cfg) : Rng(Active(W, cfg)[i].ps) \subseteq Rng(Base) \cup Rng(FnNames(W, cfg)) \cup {"s"}
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<W, D, cfg>>
Spec == Init /\ [][Next]_vars
Done == stage = 1 /\ Ok
F == Frame(W, cfg, D, Env)
(* the frame's own columns stay, in place; the rest is appended *)
Appends == Done => Len(F) >= Len(D) /\ SubSeq(ColsOf(F), 1, Len(D)) = ColsOf(D)
OnlySelected == Done => /\ Rng(ColsOf(F)) = Rng(ColsOf(D)) \cup Rng(Selected(W, cfg))
                        /\ \A c \in Rng(ColsOf(D)) \ Rng(Selected(W, cfg)) : At(F, c) = At(D, c)
NoTwice == Done => Cardinality(Rng(ColsOf(F))) = Len(F)
Rows == Done => \A i \in DOMAIN F : Len(F[i].v) = 2
(* what is not needed does not matter *)
Irrelevant == (Done /\ ~W.all) => \A n \in Rng(FnNames(W, cfg)) \ Need(W, cfg) : Frame([W EXCEPT !.fns = SelectSeq(@, LAMBDA f : f.n # n)], cfg, D, Env) = F
(* nor do columns that are not asked for *)
OtherColumns == Done => Rng(ColsOf(Frame([W EXCEPT !.all = FALSE, !.sel = Selected(W, cfg)], cfg, D, Env))) = Rng(ColsOf(F))
(* two steps are one, if the second does not depend on what the first added or replaced *)
TwoSteps == (Done /\ ~W.all /\ Len(W.sel) = 2 /\ Rng(W.sel) \cap Rng(Base) = {}) =>
  Frame([W EXCEPT !.sel = <<W.sel[2]>>], cfg, Frame([W EXCEPT !.sel = <<W.sel[1]>>], cfg, D, Env), Env) = F
=============================================================================
