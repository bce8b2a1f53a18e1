----------------------------- MODULE ResultsMC -----------------------------
(* Laws of Results.tla over all small sequences of outputs: the table exists, is unique up to the order of its rows, keeps everything, and adds nothing. *)
EXTENDS Results
CONSTANTS N, L     \* outputs, labels
VARIABLES outs, T, stage
vars == <<outs, T, stage>>
Lb == SubSeq(<<"p", "q", "r">>, 1, L)
Nm == <<"a", "b", "c">>
Idxs == {<<>>, <<"p">>, <<"q">>, <<"p", "q">>, <<"q", "p">>} \cup (IF L = 3 THEN {<<"q", "r">>, <<"p", "q", "r">>} ELSE {})
V(n, i) == n \o ToString(i)
Vals(n) == {[k |-> "one", t |-> n]} \cup {[k |-> "arr", v |-> [i \in 1..m |-> V(n, i)]] : m \in 0..2}
           \cup {[k |-> "ser", it |-> "o", idx |-> x, v |-> [i \in DOMAIN x |-> V(n, x[i])]] : x \in Idxs}
           \cup {[k |-> "frm", it |-> "o", idx |-> x, cols |-> <<[c |-> "u", v |-> [i \in DOMAIN x |-> V(n, x[i])]], [c |-> "w", v |-> [i \in DOMAIN x |-> V(n \o "w", x[i])]]>>] : x \in {<<"p">>, <<"q", "p">>}}
Init == stage = 0 /\ T = <<>> /\ \E n \in 1..N : outs \in {[i \in 1..n |-> [n |-> Nm[i], v |-> f[i]]] : f \in {g \in [1..n -> UNION {Vals(Nm[i]) : i \in 1..n}] : \A i \in 1..n : g[i] \in Vals(Nm[i])}}
(* the table, built one way: rows in the order of first appearance *)
RECURSIVE Order(_, _)
Order(ps, i) == IF i > Len(ps) THEN <<>> ELSE LET r == Order(ps, i + 1) IN
                IF ps[i].v.k # "ser" THEN r ELSE ps[i].v.idx \o SelectSeq(r, LAMBDA x : x \notin Rng(ps[i].v.idx))
Made == IF Single(outs) THEN LET f == outs[1].v IN [cols |-> [j \in DOMAIN f.cols |-> f.cols[j].c], idx |-> f.idx, v |-> [j \in DOMAIN f.cols |-> f.cols[j].v]]
        ELSE LET ps == Pieces(outs)
                 one == Cardinality(Indexes(ps)) = 1
                 idx == IF Indexes(ps) # {} THEN Order(ps, 1) ELSE IF ArrLens(ps) # {} THEN [i \in 1..(CHOOSE n \in ArrLens(ps) : TRUE) |-> ToString(i)] ELSE <<"0">> IN
             [cols |-> Names(ps), idx |-> idx, v |-> [j \in DOMAIN ps |-> [r \in DOMAIN idx |-> Cell(ps[j], r, idx[r], one)]]]
Next == stage = 0 /\ stage' = 1 /\ T' = (IF PandasOk(outs) THEN Made ELSE <<>>) /\ UNCHANGED outs
Spec == Init /\ [][Next]_vars
Ok == stage = 1 /\ PandasOk(outs)
Exists == Ok => IsTable(outs, T)
(* every value of every series is in its cell *)
KeepsAll == (Ok /\ ~Single(outs)) => \A i \in DOMAIN Pieces(outs) : LET p == Pieces(outs)[i] IN p.v.k = "ser" => \A j \in DOMAIN p.v.idx : \E r \in DOMAIN T.idx : T.idx[r] = p.v.idx[j] /\ T.v[i][r] = p.v.v[j]
(* a cell is empty only where its series has no such label *)
AddsNone == (Ok /\ ~Single(outs)) => \A i \in DOMAIN Pieces(outs) : LET p == Pieces(outs)[i] IN \A r \in DOMAIN T.idx : T.v[i][r] = Nil => (p.v.k = "ser" /\ T.idx[r] \notin Rng(p.v.idx))
Rect == Ok => \A i \in DOMAIN T.v : Len(T.v[i]) = Len(T.idx)
(* leaving an output out leaves the other columns as they are, row by row *)
Shrinks == (Ok /\ Len(outs) = 2 /\ outs[1].v.k = "ser") => \A j \in DOMAIN outs[1].v.idx : \E r \in DOMAIN T.idx : T.idx[r] = outs[1].v.idx[j] /\ T.v[1][r] = outs[1].v.v[j]
MatrixShape == ((stage = 1 /\ \A i \in DOMAIN outs : outs[i].v.k \in {"one", "arr"}) /\ MatrixOk(outs)) =>
                 Len(Matrix(outs)) = MatRows(outs) /\ \A r \in DOMAIN Matrix(outs) : Len(Matrix(outs)[r]) = Len(outs)
=============================================================================
