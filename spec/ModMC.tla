------------------------------- MODULE ModMC -------------------------------
\* Laws of the denotation in Modifiers.tla, checked over every declaration of a bounded family:
\*   a subdag is its inner program evaluated alone, a pipe is a fold, a parameterisation is a function applied
\*   to the bound values, and the configuration selects exactly the implementations whose conditions hold.
EXTENDS Modifiers
CONSTANT Deep
VARIABLE p
F(f,params,opt,c) == [f |-> f, params |-> params, opt |-> opt, c |-> c, k |-> [x \in Rng(params) |-> 3 + c], m |-> 97, out |-> <<>>]
D(name,fn,conds) == [name |-> name, fn |-> fn, conds |-> conds, creator |-> [t |-> "plain"], pins |-> <<>>, exp |-> <<>>, trs |-> <<>>]
Src(s) == [t |-> "src", s |-> s]
Lit(c) == [t |-> "lit", v |-> <<0,c>>]
When(k,v) == [t |-> "when", keys |-> <<k>>, vals |-> <<<<v>>>>]
WhenNot(k,v) == [t |-> "when_not", keys |-> <<k>>, vals |-> <<<<v>>>>]
Kid == [u1 |-> 1, u2 |-> 2]
Inp == [u |-> <<0,11>>, w |-> <<0,23>>]
Cfgs == {NoFn, "ck" :> 8, "ck" :> 9}
Prog(decls,cfg) == [decls |-> decls, config |-> cfg, inputs |-> Inp, kid |-> Kid]

CondSets == {<<>>, <<When("ck",8)>>, <<WhenNot("ck",8)>>, <<When("ck",0)>>, <<WhenNot("ck",9), WhenNot("ck",0)>>}
\* ---- pipes
S1 == [F("s1",<<"x","y">>,NoFn,5) EXCEPT !.f = "_s1"]
Step(fn,b,cs) == [fn |-> fn, bs |-> [y |-> b], conds |-> cs, nm |-> "", ns |-> "...", on |-> <<>>]
Steps == {Step(fn,b,cs) : fn \in {F("s1",<<"x","y">>,NoFn,5), F("s2",<<"x","y">>,NoFn,7)}, b \in {Src("w"), Lit(4)},
                           cs \in IF Deep THEN CondSets ELSE {<<>>, <<When("ck",8)>>, <<WhenNot("ck",0)>>}}
SeqsOf(S,n) == UNION {[1..i -> S] : i \in 0..n}
PipeProgs ==
  {[k |-> kk, steps |-> st, cfg |-> c] : kk \in {"in","out"}, st \in SeqsOf(Steps,2), c \in Cfgs}
BaseF == F("base",<<"u","w">>,NoFn,9)
PipeDecl(q) == IF q.k = "in"
  THEN [D("base",BaseF,<<>>) EXCEPT !.pins = <<[on |-> "u", ns |-> "...", steps |-> q.steps]>>]
  ELSE [D("base",BaseF,<<>>) EXCEPT !.trs = <<[t |-> "pout", ns |-> "...", on |-> <<>>, steps |-> q.steps]>>]
RECURSIVE Fold(_,_,_,_)
Fold(steps,i,v,cfg) ==
  IF i > Len(steps) THEN v
  ELSE IF ~Active(steps[i].conds,cfg) THEN Fold(steps,i+1,v,cfg)
  ELSE Fold(steps,i+1,Result(steps[i].fn, [x |-> v, y |-> IF steps[i].bs.y.t = "lit" THEN steps[i].bs.y.v ELSE Inp.w], Kid),cfg)
PipeLaw(q) ==
  LET P == Prog(<<PipeDecl(q)>>, q.cfg)
      env == EvalAll(P, Nodes(P))
  IN env["base"] = IF q.k = "in" THEN Result(BaseF, [u |-> Fold(q.steps,1,Inp.u,q.cfg), w |-> Inp.w], Kid)
                   ELSE Fold(q.steps,1,Result(BaseF,Inp,Kid),q.cfg)

\* ---- parameterisation
Binds == {Src("u"), Src("w"), Lit(4), [t |-> "list", es |-> <<Src("u"),Lit(6)>>], [t |-> "dict", ks |-> <<"u1","u2">>, es |-> <<Src("w"),Lit(6)>>]}
ParProgs == {[k |-> "par", b1 |-> x, b2 |-> y, opt |-> o] : x \in Binds, y \in Binds \cup {Src("absent")}, o \in {NoFn, "q" :> <<0,3>>}}
PF(q) == F("fn",<<"p","q">>,q.opt,9)
ParLaw(q) ==
  (q.b2 = Src("absent") => Has(q.opt,"q")) =>
  LET other == IF q.b2 = Src("absent") THEN Lit(4) ELSE q.b2
      d == [D("fn",PF(q),<<>>) EXCEPT !.exp = <<[name |-> "o1", b |-> [p |-> q.b1, q |-> q.b2]], [name |-> "o2", b |-> [p |-> other, q |-> q.b1]]>>]
      P == Prog(<<d>>, NoFn)
      env == EvalAll(P, Nodes(P))
      val(b) == BVal([b EXCEPT !.t = @] @@ [d |-> <<>>], Given0(P), Kid)
      arg(b) == IF b = Src("absent") THEN <<0,3>> ELSE val(b)
  IN /\ DOMAIN Nodes(P) = {"o1","o2"}
     /\ env["o1"] = Result(PF(q), [p |-> arg(q.b1), q |-> arg(q.b2)], Kid)
     /\ env["o2"] = Result(PF(q), [p |-> arg(other), q |-> arg(q.b1)], Kid)

\* ---- configuration variants
VarProgs == {[k |-> "var", c1 |-> x, c2 |-> y, cfg |-> c] : x \in CondSets, y \in CondSets, c \in Cfgs}
VarLaw(q) ==
  LET d1 == D("v",F("v__a",<<"u">>,NoFn,5),q.c1)
      d2 == D("v",F("v__b",<<"w">>,NoFn,6),q.c2)
      P == Prog(<<d1,d2>>, q.cfg)
      env == EvalAll(P,Nodes(P))
      a1 == Active(q.c1,q.cfg)
      a2 == Active(q.c2,q.cfg)
  IN /\ Ambiguous(P.decls,q.cfg) = (a1 /\ a2)
     /\ (a1 /\ ~a2) => env["v"] = Result(d1.fn, [u |-> Inp.u], Kid)
     /\ (a2 /\ ~a1) => env["v"] = Result(d2.fn, [w |-> Inp.w], Kid)
     /\ (~a1 /\ ~a2) => "v" \notin DOMAIN Nodes(P)

\* ---- subdags: the inner program, alone, with the bound values as its inputs
Inner(c1,c2,deflt) == <<D("g",F("g__a",<<"x">>,NoFn,5),c1), D("g",F("g__b",<<"x","y">>,NoFn,6),c2), D("h",F("h",<<"g","y">>,deflt,8),<<>>)>>
SubProgs == {[k |-> "sub", c1 |-> c1, c2 |-> c2, bx |-> bx, by |-> by, icfg |-> ic, cfg |-> c, depth |-> dp] :
              c1 \in IF Deep THEN CondSets ELSE {<<>>,<<When("ck",8)>>}, c2 \in {<<WhenNot("ck",8)>>, <<When("ck",0)>>}, bx \in {Src("u"),Lit(4)},
              by \in {Src("w"),Lit(4)}, ic \in Cfgs, c \in Cfgs, dp \in {1,2}}
SubDecl(nm,decls,ins,ic) ==
  [D(nm,F(nm,<<"h","x">>,NoFn,3),<<>>) EXCEPT !.creator =
     [t |-> "subdag", decls |-> decls, parts |-> <<[name |-> nm, ns |-> nm, inputs |-> ins, config |-> ic, ext |-> <<>>]>>]]
Wrap(q) == LET one == SubDecl("s", Inner(q.c1,q.c2,NoFn), [x |-> q.bx, y |-> q.by], q.icfg) IN
  IF q.depth = 1 THEN <<one>>
  ELSE \* the same subdag inside another one whose inputs only rename
       <<[D("o",F("o",<<"s">>,NoFn,3),<<>>) EXCEPT !.creator =
            [t |-> "subdag", decls |-> <<[one EXCEPT !.creator.parts[1].inputs = [x |-> Src("ix"), y |-> Src("iy")]]>>,
             parts |-> <<[name |-> "o", ns |-> "o", inputs |-> [ix |-> q.bx, iy |-> q.by], config |-> NoFn, ext |-> <<>>]>>]]>>
SubLaw(q) ==
  LET P == Prog(Wrap(q), q.cfg)
      cfg1 == q.icfg @@ q.cfg
      val(b) == IF b.t = "lit" THEN b.v ELSE Inp[b.s]
      Alone == [decls |-> Inner(q.c1,q.c2,NoFn), config |-> cfg1, inputs |-> [x |-> val(q.bx), y |-> val(q.by)], kid |-> Kid]
      pre == IF q.depth = 1 THEN "" ELSE "o."
      act == {i \in {1,2} : Active(<<q.c1,q.c2>>[i],cfg1)}
      env == EvalAll(P,Nodes(P))
      al == EvalAll(Alone,Nodes(Alone))
  IN /\ Ambiguous(P.decls,q.cfg) = (Cardinality(act) = 2)
     /\ Cardinality(act) = 1 =>
          /\ env[pre \o "s.h"] = al["h"] /\ env[pre \o "s.g"] = al["g"]
          /\ env[pre \o "s"] = Result(F("s",<<"h","x">>,NoFn,3), [h |-> al["h"], x |-> al["x"]], Kid)

Init == p \in PipeProgs \cup ParProgs \cup VarProgs \cup SubProgs
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
PipeIsFold == p.k \in {"in","out"} => PipeLaw(p)
ParamIsApplication == p.k = "par" => ParLaw(p)
ConfigSelects == p.k = "var" => VarLaw(p)
SubdagIsInlining == p.k = "sub" => SubLaw(p)
=============================================================================
