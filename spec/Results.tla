------------------------------ MODULE Results ------------------------------
(* What the shipped result builders make of the requested outputs.

   An output is [n, v] with v one of
     [k |-> "one", t]                      a plain value, as text
     [k |-> "arr", v]                      a list or array
     [k |-> "ser", it, idx, v]             a series with an index (it: its type; idx: labels)
     [k |-> "frm", it, idx, cols]          a frame, cols a sequence of [c, v]
   A result frame is [cols |-> sequence of names, idx |-> sequence of labels, v |-> sequence (per column) of functions label position -> text]. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Nil == "~"
Flat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i-1] \o ss[i] IN F[Len(ss)]
(* frames among several outputs contribute their columns, named after both *)
Pieces(outs) == Flat([i \in DOMAIN outs |-> LET o == outs[i] IN
  IF o.v.k # "frm" THEN <<o>> ELSE [j \in DOMAIN o.v.cols |-> [n |-> o.n \o "." \o o.v.cols[j].c, v |-> [k |-> "ser", it |-> o.v.it, idx |-> o.v.idx, v |-> o.v.cols[j].v]]]])
Names(ps) == [i \in DOMAIN ps |-> ps[i].n]
Twice(s) == Cardinality(Rng(s)) # Len(s)
Indexes(ps) == {p.v.idx : p \in {q \in Rng(ps) : q.v.k = "ser"}}
Labels(ps) == UNION {Rng(x) : x \in Indexes(ps)}
ArrLens(ps) == {Len(p.v.v) : p \in {q \in Rng(ps) : q.v.k = "arr"}}
AllPlain(outs) == \A i \in DOMAIN outs : outs[i].v.k = "one"
Single(outs) == Len(outs) = 1 /\ outs[1].v.k = "frm"
(* can a table be made? *)
PandasOk(outs) ==
  \/ Single(outs) \/ AllPlain(outs)
  \/ LET ps == Pieces(outs) IN
     /\ ~Twice(Names(ps))
     /\ Cardinality(ArrLens(ps)) <= 1
     /\ Indexes(ps) # {} => \A n \in ArrLens(ps) : n = (IF Cardinality(Indexes(ps)) = 1 THEN Len(CHOOSE x \in Indexes(ps) : TRUE) ELSE Cardinality(Labels(ps)))
     /\ (Cardinality(Indexes(ps)) > 1 => \A x \in Indexes(ps) : ~Twice(x))
(* the cell of a piece in a row: row r of the table, its label lb *)
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Cell(p, r, lb, one) ==
  CASE p.v.k = "one" -> p.v.t
    [] p.v.k = "arr" -> p.v.v[r]
    [] OTHER -> IF one THEN p.v.v[r] ELSE IF lb \in Rng(p.v.idx) THEN p.v.v[Pos(p.v.idx, lb)] ELSE Nil
(* is T the table of these outputs?  T: [cols, idx, v] *)
IsTable(outs, T) ==
  IF Single(outs) THEN LET f == outs[1].v IN T.cols = [j \in DOMAIN f.cols |-> f.cols[j].c] /\ T.idx = f.idx /\ \A j \in DOMAIN f.cols : T.v[j] = f.cols[j].v
  ELSE LET ps == Pieces(outs)
           ix == Indexes(ps)
           one == Cardinality(ix) = 1
           rows == IF ix # {} THEN (IF one THEN Len(CHOOSE x \in ix : TRUE) ELSE Cardinality(Labels(ps))) ELSE IF ArrLens(ps) # {} THEN CHOOSE n \in ArrLens(ps) : TRUE ELSE 1 IN
       /\ T.cols = Names(ps)
       /\ Len(T.idx) = rows
       /\ one => T.idx = CHOOSE x \in ix : TRUE
       /\ (ix # {} /\ ~one) => Rng(T.idx) = Labels(ps)
       /\ \A j \in DOMAIN ps : T.v[j] = [r \in 1..rows |-> Cell(ps[j], r, T.idx[r], one)]
Types(outs) == {o.v.it : o \in {x \in Rng(outs) : x.v.k \in {"ser", "frm"}}}
StrictOk(outs) == Cardinality(Types(outs)) = 1
(* matrices: one column per output, plain values repeated *)
VecLens(outs) == {Len(o.v.v) : o \in {x \in Rng(outs) : x.v.k # "one"}}
MatrixOk(outs) == Cardinality(VecLens(outs)) <= 1
MatRows(outs) == IF VecLens(outs) = {} THEN 1 ELSE CHOOSE n \in VecLens(outs) : TRUE
Matrix(outs) == [r \in 1..MatRows(outs) |-> [j \in DOMAIN outs |-> IF outs[j].v.k = "one" THEN outs[j].v.t ELSE outs[j].v.v[r]]]
(* column stores without an index: equally long columns, or one thing *)
PlainTable(outs, T) ==
  IF Single(outs) THEN LET f == outs[1].v IN T.cols = [j \in DOMAIN f.cols |-> f.cols[j].c] /\ \A j \in DOMAIN f.cols : T.v[j] = f.cols[j].v
  ELSE T.cols = Names(outs) /\ \A j \in DOMAIN outs : T.v[j] = (IF outs[j].v.k = "one" THEN <<outs[j].v.t>> ELSE outs[j].v.v)
PlainOk(outs) == Single(outs) \/ Cardinality(VecLens(outs)) <= 1
=============================================================================
