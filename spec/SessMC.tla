------------------------------ MODULE SessMC ------------------------------
(* Design model: every small pair of modules, every bounded session. *)
EXTENDS Session
CONSTANTS MaxSteps, Params, MaxB, MaxD, CfgKeys
VARIABLES M, bs, ds, steps
vars == <<M, bs, ds, steps>>
F(m, n, ps, opt) == [n |-> n, ps |-> ps, ty |-> "Any", pty |-> [p \in Rng(ps) |-> "Any"],
                     dflt |-> [p \in opt |-> "dflt"], tags |-> [t \in {"module"} |-> <<m>>], doc |-> "", own |-> TRUE, mod |-> m]
SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Rng(s) = S
Fs(m, n) == {F(m, n, SeqOf(ps), {p \in ps : p = "x"} ) : ps \in SUBSET Params} \cup {F(m, n, SeqOf(ps), {}) : ps \in SUBSET Params}
Init == /\ M \in {[m1 |-> <<fa, fb>>, m2 |-> <<ga>>] : fa \in Fs("m1", "a"), fb \in Fs("m1", "b"), ga \in Fs("m2", "a")}
        /\ bs = [b \in {1} |-> Fresh] /\ ds = NoFn /\ steps = 0
Ops == {[ev |-> "modules", ms |-> <<"m1">>], [ev |-> "modules", ms |-> <<"m2">>], [ev |-> "allow"]}
       \cup {[ev |-> "config", kv |-> [k \in {c} |-> v]] : c \in CfgKeys, v \in {"c1", "c2"}}
Do == \E b \in DOMAIN bs, op \in Ops : ~Refuses(bs[b], op) /\ bs' = [bs EXCEPT ![b] = Apply(@, op)] /\ UNCHANGED ds
Copy == Cardinality(DOMAIN bs) < MaxB /\ \E b \in DOMAIN bs : bs' = Put(bs, Cardinality(DOMAIN bs) + 1, bs[b]) /\ UNCHANGED ds
Build == Cardinality(DOMAIN ds) < MaxD /\ \E b \in DOMAIN bs : ~MustRefuse(M, bs[b])
            /\ ds' = Put(ds, Cardinality(DOMAIN ds) + 1, [defs |-> Defs(M, bs[b]), cfg |-> bs[b].cfg, b |-> bs[b]]) /\ UNCHANGED bs
Next == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED M /\ (Do \/ Copy \/ Build)
Spec == Init /\ [][Next]_vars
Built(P(_, _)) == \A d \in DOMAIN ds : P(ds[d].defs, ds[d].cfg)
UpDownDual == Built(LAMBDA D, c : \A x, y \in NodesOf(D, c) : x \in Up(D, c, {y}) <=> y \in Down(D, c, {x}))
PathSound == Built(LAMBDA D, c : \A x, y \in NodesOf(D, c) :
               /\ (Path(D, c, x, y) # {}) <=> (x \in Up(D, c, {y}))
               /\ Path(D, c, x, y) # {} => {x, y} \subseteq Path(D, c, x, y)
               /\ (x = y /\ Path(D, c, x, y) # {x}) => OnCycle(D, c, x))
LastWins == \A d \in DOMAIN ds : LET b == ds[d].b  D == ds[d].defs IN
               /\ DOMAIN D \cap DOMAIN b.cfg = {}
               /\ \A n \in DOMAIN D : D[n].mod \in Rng(b.ms) /\
                    \A i \in DOMAIN b.ms : (\E f \in Rng(M[b.ms[i]]) : f.n = n) =>
                        \E j \in i..Len(b.ms) : b.ms[j] = D[n].mod
UsedWithinUp == Built(LAMBDA D, c : \A S \in SUBSET DOMAIN D, given \in BOOLEAN :
               LET ins == IF given THEN [x \in Outer(D) \ DOMAIN c |-> "v"] ELSE NoFn IN
               /\ Used(D, c, S, ins, NoFn) \subseteq Up(D, c, S)
               /\ given => (Used(D, c, S, ins, NoFn) = Up(D, c, S) /\ ~Lacks(D, c, S, ins, NoFn))
               /\ (~Cyclic(D, c, S) /\ ~Lacks(D, c, S, ins, NoFn)) => \A n \in S : Val(D, c, ins, NoFn, n) # "")
SnapshotStable == [][\A d \in DOMAIN ds : ds'[d] = ds[d]]_vars
CopyIndependent == [][Cardinality({b \in DOMAIN bs : bs'[b] # bs[b]}) <= 1]_vars
=============================================================================
