------------------------------- MODULE ParMC --------------------------------
\* instance-level design: every interleaving of the calls of two chained parallel blocks with a shared outer node
EXTENDS Par
CONSTANT MaxLen
nd(ps,kind,extra) == extra @@ [params |-> ps, opt |-> EmptyFn, kind |-> kind, c |-> 7, m |-> 101, k |-> [q \in RangeOf(ps) |-> 3]]
ex(len,dyn) == [len |-> len, dyn |-> dyn, step |-> 0]     \* step 0: equal items, the hardest case for matching
Prog(l1,l2,dyn,fl,os) ==
  [nodes |-> ("o" :> nd(<<"i">>,"plain",EmptyFn)) @@
             ("x" :> nd(<<"o">>,"expand",[ex(l1,dyn) EXCEPT !.step = 5])) @@
             ("b1" :> nd(<<"x","o">>,"plain",EmptyFn)) @@
             ("b2" :> nd(<<"b1">>,"plain",EmptyFn)) @@
             ("c" :> nd(<<"b2","o">>,"collect",[cparam |-> "b2"])) @@
             ("x2" :> nd(<<"c">>,"expand",ex(l2,0))) @@
             ("d1" :> nd(<<"x2","i">>,"plain",EmptyFn)) @@
             ("c2" :> nd(<<"d1">>,"collect",[cparam |-> "d1"])) @@
             ("z" :> nd(<<"c2","o">>,"plain",EmptyFn)),
   order |-> <<"o","x","b1","b2","c","x2","d1","c2","z">>,
   config |-> EmptyFn, inputs |-> [i |-> 4], overrides |-> EmptyFn, ovseq |-> os,
   final |-> <<"z">>, fail |-> fl]
Progs == {Prog(l1,l2,dyn,fl,os) : l1 \in 0..MaxLen, l2 \in 0..2, dyn \in {0,1},
            fl \in {<<>>,<<"b1">>,<<"d1">>,<<"c">>}, os \in {EmptyFn, [x |-> <<9,9>>]}}
Init == \E p \in Progs : ParInit(p)
CallAny == \E n \in DOMAIN calls : DepsDone(n) /\ \E j \in 1..Len(Expected(n)) :
             LET a == Expected(n)[j]
                 owedBad == n \in DOMAIN D.den.badcalls /\ D.den.badcalls[n] > 0 IN
             Owed(n,a) /\ nfail = 0 /\ (Call(n,a,TRUE) \/ (owedBad /\ Call(n,a,FALSE)))
Next == CallAny \/ Return \/ Raise
Spec == Init /\ [][Next]_parvars /\ WF_parvars(Next)
EventuallyAnswers == <>(outcome # "running" \/ D.den.poison)
=============================================================================
