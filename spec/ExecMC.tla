------------------------------- MODULE ExecMC -------------------------------
\* Exhaustive small scope: every DAG over three functions, one external value, every subset of parameters optional,
\* every override / request / failure / supplied-input combination.
EXTENDS Exec
CONSTANT Deep

N == <<"f","g","h">>
ParamPool(i) == {"i","c"} \cup {N[j] : j \in 1..(i-1)}
SetToSeqAny(S) == CHOOSE s \in [1..Cardinality(S) -> S] : RangeOf(s) = S
NodeRec(i,S,O) == [params |-> SetToSeqAny(S), opt |-> [x \in O |-> 3], c |-> 10*i, m |-> 97, k |-> [x \in S |-> i+1]]
Shapes(i) == {NodeRec(i,S,O) : <<S,O>> \in {<<A,B>> \in (SUBSET ParamPool(i)) \X (SUBSET ParamPool(i)) :
                 B \subseteq A /\ Cardinality(A) <= 2 /\ (i < 3 => B \subseteq {"i"})}}
Prog(s1,s2,s3,inp,cfg,ov,fin,fl) ==
  [nodes |-> ("f" :> s1) @@ ("g" :> s2) @@ ("h" :> s3), order |-> N,
   config |-> [x \in cfg |-> 5], inputs |-> [x \in inp |-> 2],
   overrides |-> [x \in ov |-> 1], final |-> fin, fail |-> fl]
Progs == {Prog(s1,s2,s3,inp,cfg,ov,fin,fl) :
            s1 \in Shapes(1), s2 \in Shapes(2), s3 \in Shapes(3),
            inp \in {{},{"i"}}, cfg \in (IF Deep THEN {{"c"},{"c","f"}} ELSE {{"c"}}), ov \in {{},{"g"}} \cup (IF Deep THEN {{"f"}} ELSE {}),
            fin \in {<<"h","f">>} \cup (IF Deep THEN {<<"g","f">>,<<"h","zz">>} ELSE {}), fl \in {<<>>,<<"g">>}}
Init == ExecInit(Progs)
Spec == Init /\ [][ExecNext]_execvars /\ WF_execvars(ExecNext)
=============================================================================
