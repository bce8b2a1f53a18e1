------------------------------ MODULE Dataflow ------------------------------
(***************************************************************************)
(* The denotational core of the system: what a dataflow program IS and     *)
(* what a request against it MEANS.  A program record P has                *)
(*   nodes     [name |-> [params : Seq(name), opt : [name |-> code],       *)
(*                        c, m : Int, k : [name |-> Int], ...]]            *)
(*   order     names of nodes in an order in which dependencies come first *)
(*   config, inputs, overrides : [name |-> code]                           *)
(*   final     Seq(name), fail : Seq(name) (functions that raise)          *)
(* Values are integer codes; node n maps its argument codes to             *)
(*   (c + SUM k[p]*arg[p]) mod m.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(s) == {s[i] : i \in 1..Len(s)}
EmptyFn == [x \in {} |-> 0]

\* a configured value replaces the function of the same name
NodeNames(P)  == DOMAIN P.nodes \ DOMAIN P.config
ParamSeq(P,n) == P.nodes[n].params
ParamSet(P,n) == RangeOf(P.nodes[n].params)
OptSet(P,n)   == DOMAIN P.nodes[n].opt
Overrides(P)  == DOMAIN P.overrides
Given(P)      == DOMAIN P.inputs \cup DOMAIN P.config
Final(P)      == RangeOf(P.final)
Fails(P)      == RangeOf(P.fail)
LeafNames(P)  == UNION {ParamSet(P,n) : n \in NodeNames(P)} \ NodeNames(P)

\* a name can be supplied as a value: computed by a node, overridden, or given from outside
Obtainable(P,x) == x \in NodeNames(P) \cup Overrides(P) \cup Given(P)

\* parameters that are bound to a value (the others fall back to their default)
UsedParams(P,n) == {p \in ParamSet(P,n) : Obtainable(P,p)}

\* Least set of nodes needed: requested nodes, closed under dependencies, not crossing overrides.
RECURSIVE CloseUp(_,_,_)
CloseUp(P,frontier,acc) ==
  LET next == UNION {UsedParams(P,n) \cap NodeNames(P) : n \in frontier \ Overrides(P)} \ (acc \cup frontier)
  IN IF next = {} THEN acc \cup frontier ELSE CloseUp(P,next,acc \cup frontier)
Needed(P)   == CloseUp(P, Final(P) \cap NodeNames(P), {})
Executed(P) == Needed(P) \ Overrides(P)

\* required outside values that nobody supplied
Missing(P) == {x \in UNION {ParamSet(P,n) \ OptSet(P,n) : n \in Executed(P)} :
                  x \notin NodeNames(P) /\ x \notin Given(P)}
Unknown(P) == {x \in Final(P) : x \notin NodeNames(P) \cup LeafNames(P) \cup Given(P)}
Clash(P)   == DOMAIN P.inputs \cap DOMAIN P.config

GivenVal(P,x) == IF x \in DOMAIN P.inputs THEN P.inputs[x] ELSE P.config[x]

RECURSIVE SumArgs(_,_,_,_)
SumArgs(ps,k,arg,i) == IF i > Len(ps) THEN 0 ELSE k[ps[i]] * arg[ps[i]] + SumArgs(ps,k,arg,i+1)
Apply(nd,arg) == (nd.c + SumArgs(nd.params,nd.k,arg,1)) % nd.m

\* arguments of n: bound parameters from env, the rest from defaults
ArgsOf(P,n,env) == [p \in ParamSet(P,n) |-> IF p \in UsedParams(P,n) THEN env[p] ELSE P.nodes[n].opt[p]]

\* values of everything that is not computed by calling a function
BaseEnv(P) == [x \in Overrides(P) \cup Given(P) |->
                 IF x \in Overrides(P) THEN P.overrides[x] ELSE GivenVal(P,x)]

\* Functional evaluation of the needed part of the program.  A node whose function raises, or that depends on
\* such a node, has no value (absent from the result).
RECURSIVE EvalFrom(_,_,_)
EvalFrom(P,i,env) ==
  IF i > Len(P.order) THEN env
  ELSE LET n == P.order[i] IN
       IF n \notin Executed(P) \/ n \in Fails(P) \/ ~(UsedParams(P,n) \subseteq DOMAIN env)
       THEN EvalFrom(P,i+1,env)
       ELSE EvalFrom(P,i+1,(n :> Apply(P.nodes[n], ArgsOf(P,n,env))) @@ env)
Denote(P) == EvalFrom(P,1,BaseEnv(P))

(* Runtime types of supplied values.  Codes 0..13 denote the objects
   None 0 False "" [] {} 0.0 () [1] ["s"] {"k":1} "str" 1.5 True ; every other code is an int. *)
TagOf(c) == CASE c = 0 -> "none" [] c \in {2,13} -> "bool" [] c \in {3,11} -> "str" [] c \in {4} -> "list"
              [] c = 8 -> "list_int" [] c = 9 -> "list_str" [] c \in {5} -> "dict" [] c = 10 -> "dict_si"
              [] c \in {6,12} -> "float" [] c = 7 -> "tuple" [] OTHER -> "int"
Accepts(t) ==
  CASE t = "int"   -> {"int","bool"}
    [] t = "bool"  -> {"bool"}
    [] t = "str"   -> {"str"}
    [] t = "float" -> {"float"}
    [] t = "list"  -> {"list","list_int","list_str"}
    [] t = "dict"  -> {"dict","dict_si"}
    [] t = "tuple" -> {"tuple"}
    [] t = "Optional[int]"    -> {"int","bool"}
    [] t = "Union[int, str]"  -> {"int","bool","str"}
    [] t = "Union[str, list]" -> {"str","list","list_int","list_str"}
    [] t = "Dict[str, int]"   -> {"dict","dict_si"}
    [] OTHER -> {}
TypeOK(t,c) == t = "Any" \/ TagOf(c) = "none" \/ TagOf(c) \in Accepts(t)
\* supplied values that the request will use (None is always accepted)
UsedLeaves(P) == ((UNION {UsedParams(P,n) : n \in Executed(P)}) \cup Final(P)) \ NodeNames(P)
BadTyped(P) == IF "ty" \in DOMAIN P
               THEN {x \in UsedLeaves(P) \cap DOMAIN P.ty \cap Given(P) : ~TypeOK(P.ty[x], GivenVal(P,x))}
               ELSE {}

Rejected(P) == Missing(P) # {} \/ Unknown(P) # {} \/ Clash(P) # {} \/ BadTyped(P) # {}
FailNodes(P) == Executed(P) \cap Fails(P)
=============================================================================
