------------------------------ MODULE Modifiers ------------------------------
(***************************************************************************)
(* What decorated functions MEAN: the denotation of a list of decorated    *)
(* declarations under a configuration is a map from node names to          *)
(* definitions; a definition is a call of one of the user's functions with *)
(* each parameter bound to a value, a field of another node, a copy of     *)
(* another node, or a constant.                                            *)
(*                                                                         *)
(* Values are Seq(Int):  <<0,c>> scalar c ; <<1,h..>> list of elements ;   *)
(* <<2,k1,h1,k2,h2..>> dict (key ids increasing).                          *)
(* A function record: [f, params, opt, c, k, m, out] ; out = <<>> : scalar *)
(* result, otherwise the sequence of keys of the dict it returns.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
NoFn == [x \in {} |-> 0]
Has(r, x) == x \in DOMAIN r

\* ---------- values
RECURSIVE HSum(_,_)
HSum(v,i) == IF i > Len(v) THEN 0 ELSE v[i] * (i*i + 3) + HSum(v,i+1)
H(v) == IF v[1] = 0 THEN v[2] ELSE HSum(v,1) % 9973
ListVal(vs) == <<1>> \o [i \in 1..Len(vs) |-> H(vs[i])]
\* keys given as ids, values as Seq of values, same order; encoded by increasing key id
RECURSIVE DictEnc(_,_)
DictEnc(ids, vs) ==
  IF ids = <<>> THEN <<>>
  ELSE LET i == CHOOSE j \in 1..Len(ids) : \A q \in 1..Len(ids) : ids[j] <= ids[q]
           rest(s) == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
       IN <<ids[i], H(vs[i])>> \o DictEnc(rest(ids), rest(vs))
DictVal(ids, vs) == <<2>> \o DictEnc(ids, vs)
FieldOf(v, id) == LET i == CHOOSE j \in 2..Len(v) : j % 2 = 0 /\ v[j] = id IN <<0, v[i+1]>>
HasField(v, id) == \E j \in 2..Len(v) : j % 2 = 0 /\ v[j] = id

RECURSIVE ArgSum(_,_,_)
ArgSum(S,k,args) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN k[p] * H(args[p]) + ArgSum(S \ {p},k,args)
Scalar(fn,args) == (fn.c + ArgSum(DOMAIN args, fn.k, args)) % fn.m
\* kid: key -> id
Result(fn,args,kid) ==
  LET s == Scalar(fn,args) IN
  IF fn.out = <<>> THEN <<0, s>>
  ELSE DictVal([i \in 1..Len(fn.out) |-> kid[fn.out[i]]], [i \in 1..Len(fn.out) |-> <<0, (s + 37*i) % fn.m>>])

\* ---------- configuration conditions (an absent key reads as None, scalar code 0)
CfgVal(cfg,key) == IF Has(cfg,key) THEN cfg[key] ELSE 0
Holds(c,cfg) == CASE c.t = "when"        -> \A i \in 1..Len(c.keys) : CfgVal(cfg,c.keys[i]) = c.vals[i][1]
                  [] c.t = "when_not"    -> \A i \in 1..Len(c.keys) : CfgVal(cfg,c.keys[i]) # c.vals[i][1]
                  [] c.t = "when_in"     -> \A i \in 1..Len(c.keys) : CfgVal(cfg,c.keys[i]) \in Rng(c.vals[i])
                  [] c.t = "when_not_in" -> \A i \in 1..Len(c.keys) : CfgVal(cfg,c.keys[i]) \notin Rng(c.vals[i])
                  [] c.t = "exclude"     -> FALSE
Active(conds,cfg) == \A i \in 1..Len(conds) : Holds(conds[i],cfg)

\* ---------- bindings:  src (optionally with a default d) | lit | list | dict | cfglit | cfgsrc
Own(fn,p) == IF Has(fn.opt,p) THEN [t |-> "src", s |-> p, d |-> fn.opt[p]] ELSE [t |-> "src", s |-> p]
\* a replacement keeps the default of the parameter it replaces
RECURSIVE Bind(_,_,_)
Bind(b, dflt, cfg) ==
  CASE b.t = "src" -> IF dflt # <<>> THEN [t |-> "src", s |-> b.s, d |-> dflt] ELSE [t |-> "src", s |-> b.s]
    [] b.t = "lit" -> b
    [] b.t = "list" -> [t |-> "list", es |-> [i \in 1..Len(b.es) |-> Bind(b.es[i], <<>>, cfg)], d |-> dflt]
    [] b.t = "dict" -> [t |-> "dict", ks |-> b.ks, es |-> [i \in 1..Len(b.es) |-> Bind(b.es[i], <<>>, cfg)], d |-> dflt]
    [] b.t = "cfglit" -> [t |-> "lit", v |-> <<0, IF Has(cfg,b.key) THEN cfg[b.key] ELSE b.d>>]
    [] b.t = "cfgsrc" -> LET c == IF Has(cfg,b.key) THEN cfg[b.key] ELSE b.d
                             s == b.names[1 + (c % Len(b.names))]
                         IN IF dflt # <<>> THEN [t |-> "src", s |-> s, d |-> dflt] ELSE [t |-> "src", s |-> s]
Dflt(fn,p) == IF Has(fn.opt,p) THEN fn.opt[p] ELSE <<>>
Rebind(fn, bs, cfg) == [p \in Rng(fn.params) |-> IF Has(bs,p) THEN Bind(bs[p], Dflt(fn,p), cfg) ELSE Own(fn,p)]

SrcsOf1(b) == CASE b.t = "src" -> {b.s}
                [] b.t \in {"list","dict"} -> {b.es[i].s : i \in {j \in 1..Len(b.es) : b.es[j].t = "src"}}
                [] OTHER -> {}
Srcs(df) == CASE df.t = "call" -> UNION {SrcsOf1(df.b[p]) : p \in DOMAIN df.b}
              [] df.t \in {"field","id"} -> {df.s}
              [] OTHER -> {}

\* rename the sources of a definition with map nm
Rn(nm,x) == IF Has(nm,x) THEN nm[x] ELSE x
RnB(nm,b) == CASE b.t = "src" -> [b EXCEPT !.s = Rn(nm,@)]
               [] b.t \in {"list","dict"} -> [b EXCEPT !.es = [i \in 1..Len(b.es) |->
                      IF b.es[i].t = "src" THEN [b.es[i] EXCEPT !.s = Rn(nm,@)] ELSE b.es[i]]]
               [] OTHER -> b
RnD(nm,df) == CASE df.t = "call" -> [df EXCEPT !.b = [p \in DOMAIN df.b |-> RnB(nm,df.b[p])]]
                [] df.t \in {"field","id"} -> [df EXCEPT !.s = Rn(nm,@)]
                [] OTHER -> df

\* ---------- pipes.  step: [fn, bs, conds, nm, ns, on] ; ns: "..." | "" (none) | string ; on: <<>> = everything
Dotted(ns,x) == IF ns = "" THEN x ELSE ns \o "." \o x
StepBase(fn) == IF Has(fn,"pyname") THEN fn.pyname ELSE fn.f
RECURSIVE Chain(_,_,_,_,_,_,_)
\* returns [defs, last]
Chain(steps,i,cur,ns,dfltNs,count,cfg) ==
  IF i > Len(steps) THEN [defs |-> NoFn, last |-> cur]
  ELSE LET st == steps[i] IN
    IF ~Active(st.conds,cfg) THEN Chain(steps,i+1,cur,ns,dfltNs,count,cfg)
    ELSE LET base == StepBase(st.fn)
             k == IF Has(count,base) THEN count[base] ELSE 0
             auto == "with_" \o base \o (IF k = 0 THEN "" ELSE "_" \o ToString(k))
             useNs == IF ns # "..." THEN ns ELSE IF st.ns = "..." THEN dfltNs ELSE st.ns
             name == Dotted(useNs, IF st.nm = "" THEN auto ELSE st.nm)
             first == st.fn.params[1]
             b == [p \in Rng(st.fn.params) |-> IF p = first THEN [t |-> "src", s |-> cur]
                                              ELSE IF Has(st.bs,p) THEN Bind(st.bs[p], Dflt(st.fn,p), cfg) ELSE Own(st.fn,p)]
             rest == Chain(steps,i+1,name,ns,dfltNs,(base :> k+1) @@ count,cfg)
         IN [defs |-> (name :> [t |-> "call", fn |-> st.fn, b |-> b]) @@ rest.defs, last |-> rest.last]

\* pipe_input: the chosen parameter is fed from the last applied step
PipeIn(defs, pin, name, cfg) ==
  LET ch == Chain(pin.steps, 1, pin.on, pin.ns, name, NoFn, cfg)
      df == defs[name]
  IN ch.defs @@ [n \in DOMAIN defs |-> IF n = name THEN RnD(pin.on :> ch.last, df) ELSE defs[n]]

Sinks(st) == {n \in DOMAIN st.defs : n \notin st.nf /\ \A m \in DOMAIN st.defs : n \notin Srcs(st.defs[m])}

\* pipe_output on node x
PipeOut1(defs, x, po, cfg) ==
  LET mine == SelectSeq(po.steps, LAMBDA s : s.on = <<>> \/ x \in Rng(s.on))
      ch == Chain(mine, 1, x \o ".raw", po.ns, x, NoFn, cfg)
  IN IF DOMAIN ch.defs = {} THEN defs
     ELSE (x :> [t |-> "id", s |-> ch.last]) @@ (x \o ".raw" :> defs[x]) @@ ch.defs @@ defs
RECURSIVE PipeOutAll(_,_,_,_)
PipeOutAll(defs,S,po,cfg) ==
  IF S = {} THEN defs ELSE LET x == CHOOSE y \in S : TRUE IN PipeOutAll(PipeOut1(defs,x,po,cfg), S \ {x}, po, cfg)

Transform(st, tr, cfg) ==
  CASE tr.t = "fields" ->
         LET x == CHOOSE y \in Sinks(st) : TRUE IN
         [st EXCEPT !.defs = [n \in Rng(tr.keys) |-> [t |-> "field", s |-> x, key |-> n, fill |-> tr.fill]] @@ st.defs]
    [] tr.t = "pout" ->
         [st EXCEPT !.defs = PipeOutAll(st.defs, IF tr.on = <<>> THEN Sinks(st) ELSE Rng(tr.on), tr, cfg)]
RECURSIVE TransformAll(_,_,_,_)
TransformAll(st,trs,i,cfg) == IF i > Len(trs) THEN st ELSE TransformAll(Transform(st,trs[i],cfg),trs,i+1,cfg)

\* ---------- declarations
RECURSIVE ExpandDecl(_,_), ExpandAll(_,_,_), Subdag(_,_,_,_), SubParts(_,_,_)
\* one subdag: inner declarations, namespaced; inputs and its own configuration become nodes of the namespace
Subdag(d, part, i, cfg) ==
  LET cr == d.creator
      inner == ExpandAll(cr.decls, 1, part.config @@ cfg)
      nmap == [x \in DOMAIN inner \cup DOMAIN part.inputs \cup DOMAIN part.config |-> part.ns \o "." \o x]
      body == [y \in {nmap[x] : x \in DOMAIN inner} |->
                 RnD(nmap, inner[CHOOSE x \in DOMAIN inner : nmap[x] = y])]
      used == UNION {Srcs(body[y]) : y \in DOMAIN body}
      lits == [y \in {nmap[x] : x \in {z \in DOMAIN part.inputs : part.inputs[z].t = "lit"}} |->
                 [t |-> "const", v |-> part.inputs[CHOOSE x \in DOMAIN part.inputs : nmap[x] = y].v]]
      ids == [y \in {nmap[x] : x \in {z \in DOMAIN part.inputs : part.inputs[z].t = "src" /\ nmap[z] \in used}} |->
                 [t |-> "id", s |-> part.inputs[CHOOSE x \in DOMAIN part.inputs : nmap[x] = y].s]]
      cs == [y \in {nmap[x] : x \in DOMAIN part.config} |->
                 [t |-> "const", v |-> <<0, part.config[CHOOSE x \in DOMAIN part.config : nmap[x] = y]>>]]
      fmap == [p \in Rng(d.fn.params) \ Rng(part.ext) |-> part.ns \o "." \o p]
      fin == (part.name :> [t |-> "call", fn |-> d.fn,
                            b |-> [p \in Rng(d.fn.params) |-> RnB(fmap, Own(d.fn,p))]])
  IN [defs |-> fin @@ body @@ lits @@ ids @@ cs, nf |-> DOMAIN body \cup DOMAIN lits \cup DOMAIN ids \cup DOMAIN cs]
SubParts(d,i,cfg) ==
  IF i > Len(d.creator.parts) THEN [defs |-> NoFn, nf |-> {}]
  ELSE LET a == Subdag(d, d.creator.parts[i], i, cfg)
           r == SubParts(d,i+1,cfg)
       IN [defs |-> a.defs @@ r.defs, nf |-> a.nf \cup r.nf]

Create(d,cfg) ==
  CASE d.creator.t = "plain" -> [defs |-> (d.name :> [t |-> "call", fn |-> d.fn, b |-> Rebind(d.fn, NoFn, cfg)]), nf |-> {}]
    [] d.creator.t = "does" ->
         LET rf == d.creator.fn
             mp == d.creator.map                 \* replacing parameter -> original parameter
             kept == Rng(d.fn.params) \ {mp[q] : q \in DOMAIN mp}
             b == [q \in DOMAIN mp \cup kept |-> Own(d.fn, IF q \in DOMAIN mp THEN mp[q] ELSE q)]
             lits == [q \in (Rng(rf.params) \ DOMAIN b) \cap DOMAIN rf.opt |-> [t |-> "lit", v |-> rf.opt[q]]]
         IN [defs |-> (d.name :> [t |-> "call", fn |-> rf, b |-> b @@ lits]), nf |-> {}]
    [] d.creator.t = "subdag" -> SubParts(d,1,cfg)

RECURSIVE PipesIn(_,_,_,_)
PipesIn(defs,d,i,cfg) == IF i > Len(d.pins) THEN defs ELSE PipesIn(PipeIn(defs,d.pins[i],d.name,cfg),d,i+1,cfg)

OutOf(d,o) == IF Has(o,"out") THEN [d.fn EXCEPT !.out = o.out] ELSE d.fn
RECURSIVE ExpandOuts(_,_,_)
ExpandOuts(d,i,cfg) ==
  IF i > Len(d.exp) THEN NoFn
  ELSE LET o == d.exp[i]
           \* a parameterisation rewrites the arguments of whatever the creator produced
           f == OutOf(d,o)
           me == (o.name :> [t |-> "call", fn |-> f, b |-> Rebind(f, o.b, cfg)])
           fl == IF Has(o,"out")
                 THEN [k \in Rng(o.out) |-> [t |-> "field", s |-> o.name, key |-> k, fill |-> <<>>]] ELSE NoFn
       IN me @@ fl @@ ExpandOuts(d,i+1,cfg)

ExpandDecl(d,cfg) ==
  IF ~Active(d.conds,cfg) THEN NoFn
  ELSE LET c == Create(d,cfg)
           p == [c EXCEPT !.defs = PipesIn(c.defs,d,1,cfg)]
           x == IF d.exp = <<>> THEN p ELSE [defs |-> ExpandOuts(d,1,cfg), nf |-> {}]
       IN TransformAll(x, d.trs, 1, cfg).defs
ExpandAll(decls,i,cfg) == IF i > Len(decls) THEN NoFn ELSE ExpandDecl(decls[i],cfg) @@ ExpandAll(decls,i+1,cfg)

\* two active declarations define the same node
RECURSIVE SumCard(_,_,_)
SumCard(decls,i,cfg) == IF i > Len(decls) THEN 0 ELSE Cardinality(DOMAIN ExpandDecl(decls[i],cfg)) + SumCard(decls,i+1,cfg)
RECURSIVE Ambiguous(_,_)
Ambiguous(decls,cfg) ==
  \/ SumCard(decls,1,cfg) # Cardinality(DOMAIN ExpandAll(decls,1,cfg))
  \/ \E i \in 1..Len(decls) :
        /\ decls[i].creator.t = "subdag" /\ Active(decls[i].conds,cfg)
        /\ \E j \in 1..Len(decls[i].creator.parts) : Ambiguous(decls[i].creator.decls, decls[i].creator.parts[j].config @@ cfg)

\* ---------- execution
Given0(P) == [x \in DOMAIN P.inputs \cup DOMAIN P.config |->
                IF Has(P.inputs,x) THEN P.inputs[x] ELSE <<0, P.config[x]>>]
Nodes(P) == LET all == ExpandAll(P.decls,1,P.config) IN [n \in DOMAIN all \ DOMAIN P.config |-> all[n]]

BVal(b,env,kid) ==
  LET el(e) == IF e.t = "lit" THEN e.v ELSE env[e.s] IN
  CASE b.t = "src" -> IF Has(env,b.s) THEN env[b.s] ELSE b.d
    [] b.t = "lit" -> b.v
    [] OTHER -> IF b.d # <<>> /\ \E i \in 1..Len(b.es) : b.es[i].t = "src" /\ ~Has(env,b.es[i].s) THEN b.d
                ELSE IF b.t = "list" THEN ListVal([i \in 1..Len(b.es) |-> el(b.es[i])])
                ELSE DictVal([i \in 1..Len(b.es) |-> kid[b.ks[i]]], [i \in 1..Len(b.es) |-> el(b.es[i])])
ArgsOf(df,env,kid) == [p \in DOMAIN df.b |-> BVal(df.b[p],env,kid)]
\* <<>> is the value of a node that fails: a field that is not there and has no fill value, and all that needs it
Poisoned(df,env) == \E x \in Srcs(df) : Has(env,x) /\ env[x] = <<>>
ValueOf(df,env,kid) ==
  CASE Poisoned(df,env) -> <<>>
    [] df.t = "call" -> Result(df.fn, ArgsOf(df,env,kid), kid)
    [] df.t = "field" -> IF HasField(env[df.s], kid[df.key]) THEN FieldOf(env[df.s], kid[df.key]) ELSE df.fill
    [] df.t = "id" -> env[df.s]
    [] df.t = "const" -> df.v
RECURSIVE Rounds(_,_,_)
Rounds(defs,env,kid) ==
  LET ready == {n \in DOMAIN defs \ DOMAIN env : \A s \in Srcs(defs[n]) : s \in DOMAIN defs => s \in DOMAIN env}
  IN IF ready = {} THEN env
     ELSE Rounds(defs, [n \in ready |-> ValueOf(defs[n],env,kid)] @@ env, kid)
EvalAll(P,defs) == Rounds(defs, Given0(P), P.kid)

RECURSIVE NeedClose(_,_,_)
NeedClose(defs,front,acc) ==
  LET nx == (UNION {Srcs(defs[n]) : n \in front} \cap DOMAIN defs) \ (acc \cup front)
  IN IF nx = {} THEN acc \cup front ELSE NeedClose(defs,nx,acc \cup front)
Needed(defs,final) == NeedClose(defs, final \cap DOMAIN defs, {})
Owed(defs,final) == {n \in Needed(defs,final) : defs[n].t = "call"}
=============================================================================
