-------------------------------- MODULE ParDen ------------------------------
(***************************************************************************)
(* Dynamic parallel blocks.  A node of kind "expand" produces a sequence   *)
(* of items; every node that depends on it (up to a "collect") is          *)
(* evaluated once per item; a "collect" node receives, for its collect     *)
(* parameter, the sequence of per-item values in the order of the items.   *)
(* Node records carry, besides the Dataflow fields, kind, and              *)
(*   expand : len, dyn, step   (dyn=1: the number of items depends on the  *)
(*            arguments)                                                   *)
(*   collect: cparam                                                       *)
(* P.ovseq[x] overrides the items of expander x.                           *)
(***************************************************************************)
EXTENDS Dataflow

Kind(p,n) == p.nodes[n].kind
OvSeq(p)  == DOMAIN p.ovseq

\* the expander whose block n belongs to ("" = outside of every block)
RECURSIVE RegionFrom(_,_,_)
RegionFrom(p,i,r) ==
  IF i > Len(p.order) THEN r
  ELSE LET n == p.order[i]
           ds == ParamSet(p,n) \cap DOMAIN r
           xs == {d \in ds : Kind(p,d) = "expand"} \cup {r[d] : d \in {d \in ds : r[d] # ""}}
           mine == IF Kind(p,n) = "collect" \/ xs = {} THEN "" ELSE CHOOSE x \in xs : TRUE
       IN RegionFrom(p,i+1,(n :> mine) @@ r)
Region(p) == RegionFrom(p,1,EmptyFn)

Items(nd,base) == LET k == IF nd.dyn = 1 THEN base % (nd.len + 1) ELSE nd.len
                  IN [j \in 1..k |-> (base + (j-1) * nd.step) % nd.m]
RECURSIVE Fold(_,_,_,_)
Fold(s,j,acc,m) == IF j > Len(s) THEN acc ELSE Fold(s,j+1,(acc * 31 + s[j]) % m,m)

\* needed part: expanders overridden by a sequence are not computed
NeededP(p)   == LET q == [p EXCEPT !.overrides = [x \in DOMAIN p.overrides \cup OvSeq(p) |-> 0]] IN Needed(q)
ExecutedP(p) == NeededP(p) \ (Overrides(p) \cup OvSeq(p))
\* does the function call with result code v fail?
FailsOn(p,n,v) == n \in Fails(p) /\ (v % 2 = 0 \/ Kind(p,n) # "plain")

(* Denotation: env = scalar values, seqs = per-item values, args = the calls that have to be made,
   bad = number of calls that raise.  Nodes that cannot be computed because something upstream raised
   have no entry. *)
RECURSIVE EvalPar(_,_,_,_)
EvalPar(p,i,R,st) ==
  IF i > Len(p.order) THEN st
  ELSE
  LET n == p.order[i]
      nd == p.nodes[n]
      used == {q \in ParamSet(p,n) : Obtainable(p,q) \/ q \in OvSeq(p)}
      x == R[n]
      Val(q,j) == IF q \notin used THEN nd.opt[q]
                  ELSE IF x # "" /\ q \in DOMAIN st.seqs /\ (q = x \/ R[q] = x) THEN st.seqs[q][j]
                  ELSE st.env[q]
      none == x # "" /\ x \in DOMAIN st.seqs /\ st.seqs[x] = <<>>      \* no items: nothing else is needed
      avail == none \/ \A q \in used : q \in DOMAIN st.env \/ q \in DOMAIN st.seqs
  IN
  IF n \in OvSeq(p) THEN EvalPar(p,i+1,R,[st EXCEPT !.seqs = (n :> p.ovseq[n]) @@ @])
  ELSE IF n \notin ExecutedP(p) THEN EvalPar(p,i+1,R,st)
  ELSE IF ~avail THEN EvalPar(p,i+1,R,[st EXCEPT !.poison = TRUE])
  ELSE IF nd.kind = "collect" /\ -2 \in {st.seqs[nd.cparam][j] : j \in 1..Len(st.seqs[nd.cparam])}
       THEN EvalPar(p,i+1,R,[st EXCEPT !.poison = TRUE])
  ELSE IF nd.kind = "expand" THEN
    LET a == [q \in ParamSet(p,n) |-> Val(q,1)]
        b == Apply(nd,a)
    IN IF FailsOn(p,n,b)
       THEN EvalPar(p,i+1,R,[st EXCEPT !.args = (n :> <<a>>) @@ @, !.badcalls = (n :> 1) @@ @, !.poison = TRUE])
       ELSE EvalPar(p,i+1,R,[st EXCEPT !.args = (n :> <<a>>) @@ @, !.badcalls = (n :> 0) @@ @,
                                       !.seqs = (n :> Items(nd,b)) @@ @])
  ELSE IF nd.kind = "collect" THEN
    LET rest == ParamSet(p,n) \ {nd.cparam}
        a == [q \in rest |-> Val(q,1)]
        s == st.seqs[nd.cparam]
        sm == SumArgs(SelectSeq(nd.params, LAMBDA q : q # nd.cparam), nd.k, a, 1)
        v == Fold(s,1,(nd.c + sm) % nd.m,nd.m)
        call == a @@ (nd.cparam :> s)
    IN IF FailsOn(p,n,v)
       THEN EvalPar(p,i+1,R,[st EXCEPT !.args = (n :> <<call>>) @@ @, !.badcalls = (n :> 1) @@ @, !.poison = TRUE])
       ELSE EvalPar(p,i+1,R,[st EXCEPT !.args = (n :> <<call>>) @@ @, !.badcalls = (n :> 0) @@ @,
                                       !.env = (n :> v) @@ @])
  ELSE IF x # "" THEN
    LET k == Len(st.seqs[x])
        a == [j \in 1..k |-> [q \in ParamSet(p,n) |-> Val(q,j)]]
        \* -2 marks an item whose evaluation was cut short by a failure
        live == [j \in 1..k |-> \A q \in ParamSet(p,n) : a[j][q] # -2]
        v == [j \in 1..k |-> IF live[j] THEN Apply(nd,a[j]) ELSE 0]
        b == Cardinality({j \in 1..k : live[j] /\ FailsOn(p,n,v[j])})
        made == SelectSeq([j \in 1..k |-> <<live[j],a[j]>>], LAMBDA c : c[1])
        st1 == [st EXCEPT !.args = (n :> [j \in 1..Len(made) |-> made[j][2]]) @@ @, !.badcalls = (n :> b) @@ @,
                          !.seqs = (n :> [j \in 1..k |-> IF live[j] /\ ~FailsOn(p,n,v[j]) THEN v[j] ELSE -2]) @@ @]
    IN EvalPar(p,i+1,R,[st1 EXCEPT !.poison = @ \/ b > 0])
  ELSE
    LET a == [q \in ParamSet(p,n) |-> Val(q,1)]
        v == Apply(nd,a)
    IN IF FailsOn(p,n,v)
       THEN EvalPar(p,i+1,R,[st EXCEPT !.args = (n :> <<a>>) @@ @, !.badcalls = (n :> 1) @@ @, !.poison = TRUE])
       ELSE EvalPar(p,i+1,R,[st EXCEPT !.args = (n :> <<a>>) @@ @, !.badcalls = (n :> 0) @@ @,
                                       !.env = (n :> v) @@ @])
DenotePar(p) == EvalPar(p,1,Region(p),[env |-> BaseEnv(p), seqs |-> EmptyFn, args |-> EmptyFn,
                                       badcalls |-> EmptyFn, poison |-> FALSE])
=============================================================================
