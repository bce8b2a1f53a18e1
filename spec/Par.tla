-------------------------------- MODULE Par ---------------------------------
(***************************************************************************)
(* Call-level machine of a program with parallel blocks (denotation in     *)
(* ParDen): any order of calls that respects the dependencies is allowed.  *)
(***************************************************************************)
EXTENDS ParDen

VARIABLES P, calls, nfail, outcome, D
parvars == <<P, calls, nfail, outcome, D>>

ParInit(p) ==
  /\ P = p
  /\ D = [den |-> DenotePar(p), reg |-> Region(p)]
  /\ calls = [n \in ExecutedP(p) |-> <<>>]
  /\ nfail = 0
  /\ outcome = "running"

CountIn(s,a) == Cardinality({j \in 1..Len(s) : s[j] = a})
Expected(n) == IF n \in DOMAIN D.den.args THEN D.den.args[n] ELSE <<>>
\* every call of n needs what it depends on: the same item's predecessors inside the block, all items for a collect
DepsDone(n) ==
  \A q \in ParamSet(P,n) \cap DOMAIN calls :
     IF D.reg[n] # "" /\ D.reg[q] = D.reg[n] THEN Len(calls[q]) > Len(calls[n])
     ELSE Len(calls[q]) = Len(Expected(q))
\* a call to n with argument record a is owed and not yet made
Owed(n,a) == CountIn(calls[n],a) < CountIn(Expected(n),a)

Call(n,a,ok) ==
  /\ outcome = "running" /\ n \in DOMAIN calls
  /\ DepsDone(n) /\ Owed(n,a)
  /\ calls' = [calls EXCEPT ![n] = Append(@,a)]
  /\ nfail' = nfail + (IF ok THEN 0 ELSE 1)
  /\ UNCHANGED <<P, outcome, D>>

ResultOf(x) == IF x \in DOMAIN D.den.seqs /\ Kind(P,x) = "expand" THEN D.den.seqs[x] ELSE D.den.env[x]
AllMade == \A n \in DOMAIN calls : Len(calls[n]) = Len(Expected(n))
Return ==
  /\ outcome = "running" /\ nfail = 0 /\ ~D.den.poison /\ AllMade
  /\ outcome' = "returned" /\ UNCHANGED <<P, calls, nfail, D>>
Raise ==
  /\ outcome = "running" /\ nfail > 0
  /\ outcome' = "raised" /\ UNCHANGED <<P, calls, nfail, D>>

(* ---- design invariants ---- *)
NeverTooMany == \A n \in DOMAIN calls : Len(calls[n]) <= Len(Expected(n))
BagsMatch    == \A n \in DOMAIN calls : \A j \in 1..Len(calls[n]) :
                   CountIn(calls[n],calls[n][j]) <= CountIn(Expected(n),calls[n][j])
CollectAfterAll == \A n \in DOMAIN calls : (Kind(P,n) = "collect" /\ calls[n] # <<>>) =>
                     \A q \in DOMAIN calls : (q = P.nodes[n].cparam) => Len(calls[q]) = Len(Expected(q))
CollectInOrder == \A n \in DOMAIN calls : (Kind(P,n) = "collect" /\ calls[n] # <<>>) =>
                     calls[n][1][P.nodes[n].cparam] = D.den.seqs[P.nodes[n].cparam]
=============================================================================
