------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Builders and the drivers made from them.  A builder is only changed by  *)
(* calls on that very builder, a copy starts equal and is independent, and *)
(* a driver is what its builder was when it was built.                     *)
(***************************************************************************)
EXTENDS Graph
Fresh == [ms |-> <<>>, cfg |-> NoFn, allow |-> FALSE, lenient |-> FALSE, hooks |-> <<>>, dyn |-> FALSE, set |-> {}, savers |-> NoFn, vals |-> <<>>]
Merge(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Apply(b, op) ==
  CASE op.ev = "modules" -> [b EXCEPT !.ms = @ \o op.ms]
    [] op.ev = "config"  -> [b EXCEPT !.cfg = Merge(@, op.kv)]
    [] op.ev = "allow"   -> [b EXCEPT !.allow = TRUE]
    [] op.ev = "lenient" -> [b EXCEPT !.lenient = TRUE]
    [] op.ev = "hook"    -> [b EXCEPT !.hooks = Append(@, op.h)]
    [] op.ev = "dynamic" -> [b EXCEPT !.dyn = TRUE]
    [] op.ev = "field"   -> [b EXCEPT !.set = @ \cup {op.f}]
    [] op.ev = "saver"   -> [b EXCEPT !.savers = Put(@, op.id, <<op.n>>)]
    [] op.ev = "validator" -> [b EXCEPT !.vals = Append(@, [v |-> op.v, ban |-> op.ban, need |-> op.need])]
    [] OTHER -> b
(* a saver can only save what is there *)
Savable(M, b) == \A i \in DOMAIN b.savers : b.savers[i][1] \in NodesOf(Defs(M, b), b.cfg)
(* static validators: each is asked about every node and about the graph; any of them can refuse it *)
Pleased(M, b) == LET N == NodesOf(Defs(M, b), b.cfg) IN \A i \in DOMAIN b.vals : Rng(b.vals[i].ban) \cap N = {} /\ (b.vals[i].need = "" \/ b.vals[i].need \in N)
ToAsk(M, b) == UNION {{<<v.v, n>> : n \in (IF v.ban = <<>> THEN {} ELSE NodesOf(Defs(M, b), b.cfg)) \cup (IF v.need = "" THEN {} ELSE {"*"})} : v \in Rng(b.vals)}
(* settings that may be given once, and only (except the adapter) after dynamic execution was enabled *)
Refuses(b, op) ==
  CASE op.ev = "field" -> \/ op.f \in b.set
                          \/ (op.f # "adapter" /\ ~b.dyn)
                          \/ (op.f \in {"local","remote"} /\ "manager" \in b.set)
                          \/ (op.f = "manager" /\ {"local","remote"} \cap b.set # {})
    [] OTHER -> FALSE
=============================================================================
