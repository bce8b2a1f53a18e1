------------------------------- MODULE Track -------------------------------
(***************************************************************************)
(* The tracking client: threads submit items, one worker sends them in     *)
(* batches (one request per run in the batch), stop() ends it.             *)
(* An item is [run, node, id, upd]; upd maps fields to values.  The        *)
(* backend keeps, per run and node, the fields last written, and the       *)
(* attributes it was sent.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
NoFn == [x \in {} |-> ""]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
RECURSIVE Fold(_)
Fold(us) == IF us = <<>> THEN NoFn ELSE Over(Fold(SubSeq(us, 1, Len(us) - 1)), us[Len(us)])
(* what one request for run r says about node n *)
Of(batch, r, n) == SelectSeq(batch, LAMBDA i : i.run = r /\ i.node = n)
Runs(batch) == {i.run : i \in Rng(batch)}
NodesIn(batch, r) == {i.node : i \in {j \in Rng(batch) : j.run = r}}
Upds(items) == [i \in DOMAIN items |-> items[i].upd]
Ids(items) == [i \in DOMAIN items |-> items[i].id]

(* a delivery of a node's updates: the next k of those waiting, merged; 0: no such k *)
Segment(waiting, upd) == LET K == {k \in 1..Len(waiting) : Fold(Upds(SubSeq(waiting, 1, k))) = upd} IN
                         IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : k <= j
=============================================================================
