------------------------------ MODULE Versions ------------------------------
(* The command line: versions of nodes and dataflows, and differences between a working tree and a commit.

   A function is [n, o, ps, body, tg, k, out, key, val]: n the node it is named after and o its own name, parameters, code, tags, decorator kind
     "plain"            one node n
     "param"            one node per name in out
     "fields"           n and one node per name in out
     "when"             node n if the configuration has key = val
   and whatever comments, docstrings and layout it has besides, which mean nothing.  A snapshot is a sequence of functions.
   A version is what a node's code says; those of things from outside are left open, as they have no code. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Made(f, cfg) == CASE f.k = "plain" -> {f.n}
                  [] f.k = "param" -> Rng(f.out)
                  [] f.k = "fields" -> {f.n} \cup Rng(f.out)
                  [] f.k = "when" -> IF f.key \in DOMAIN cfg /\ cfg[f.key] = f.val THEN {f.n} ELSE {}
FnNodes(S, cfg) == UNION {Made(f, cfg) : f \in Rng(S)} \ DOMAIN cfg
In(S, cfg) == {f \in Rng(S) : Made(f, cfg) # {}}
Outside(S, cfg) == (UNION {Rng(f.ps) : f \in In(S, cfg)} \cup DOMAIN cfg) \ FnNodes(S, cfg)
Nodes(S, cfg) == FnNodes(S, cfg) \cup Outside(S, cfg)
Origin(S, cfg, n) == CHOOSE f \in Rng(S) : n \in Made(f, cfg)
Code(f) == [o |-> f.o, ps |-> f.ps, body |-> f.body, tg |-> f.tg, k |-> f.k, out |-> f.out, key |-> f.key, val |-> f.val]
Version(S, cfg, n) == Code(Origin(S, cfg, n))
(* the dataflow's version: how many nodes say what *)
Bag(S, cfg) == LET V == {Version(S, cfg, n) : n \in FnNodes(S, cfg)} IN [v \in V |-> Cardinality({n \in FnNodes(S, cfg) : Version(S, cfg, n) = v})]
(* differences *)
CurOnly(C, R, cfg) == Nodes(C, cfg) \ Nodes(R, cfg)
RefOnly(C, R, cfg) == Nodes(R, cfg) \ Nodes(C, cfg)
Both(C, R, cfg)    == FnNodes(C, cfg) \cap FnNodes(R, cfg)
Edited(C, R, cfg)  == {n \in Both(C, R, cfg) : Version(C, cfg, n) # Version(R, cfg, n)}
Same(C, R, cfg)    == Both(C, R, cfg) \ Edited(C, R, cfg)
(* what computing F needs *)
Deps(S, cfg, n) == IF n \notin FnNodes(S, cfg) THEN {}
                   ELSE LET f == Origin(S, cfg, n) IN IF f.k = "fields" /\ n # f.n THEN {f.n} ELSE Rng(f.ps)
RECURSIVE Up(_, _, _, _)
Up(S, cfg, ovr, F) == LET G == F \cup UNION {Deps(S, cfg, n) : n \in F \ ovr} IN IF G = F THEN F ELSE Up(S, cfg, ovr, G)
Runs(S, cfg, F, ins, ovr) == F \subseteq (Nodes(S, cfg) \cup ins) /\ (Up(S, cfg, ovr, F \cap Nodes(S, cfg)) \cap Outside(S, cfg)) \subseteq (ins \cup DOMAIN cfg)
=============================================================================
