------------------------------- MODULE LifeMC -------------------------------
\* two tasks with two nodes each on two lanes, two adapters, any hook or body may fail
EXTENDS Life
CONSTANT NA
VARIABLES todo, bodies, pres, posts
mv == <<lvars, todo, bodies, pres, posts>>
Lanes == {"l1","l2"}
TaskOf == [n \in {"a","b","c","d"} |-> IF n \in {"a","b"} THEN "t1" ELSE "t2"]
LaneOf == [n \in {"a","b","c","d"} |-> IF n \in {"a","b"} THEN "l1" ELSE "l2"]
Adapters == [i \in 1..NA |-> i]
AllH == [k \in {"pre_graph","post_graph","pre_task","post_task","pre_node","post_node"} |-> Adapters]
Count(f,n) == [f EXCEPT ![n] = @ + 1]
Init == LifeInit(AllH) /\ todo = {"a","b","c","d"} /\ bodies = [n \in todo |-> 0] /\ pres = bodies /\ posts = bodies
Cont(n) == failed \cap {m \in DOMAIN TaskOf : TaskOf[m] = TaskOf[n]} = {}
Next ==
  \/ PreGraph /\ UNCHANGED <<todo,bodies,pres,posts>>
  \/ \E t \in {"t1","t2"} : Started /\ PreTask(t) /\ UNCHANGED <<todo,bodies,pres,posts>>
  \/ \E t \in {"t1","t2"} : ph = "running" /\ PreTask(t) /\ UNCHANGED <<todo,bodies,pres,posts>>
  \/ \E n \in todo, bad \in BOOLEAN : Cont(n) /\ PreNode(LaneOf[n],n,TaskOf[n],bad)
       /\ pres' = Count(pres,n) /\ todo' = (IF bad THEN todo \ {n} ELSE todo) /\ UNCHANGED <<bodies,posts>>
  \/ \E n \in todo, ok \in BOOLEAN : Body(LaneOf[n],n,ok) /\ bodies' = Count(bodies,n) /\ todo' = todo \ {n} /\ UNCHANGED <<pres,posts>>
  \/ \E n \in DOMAIN TaskOf, bad \in BOOLEAN : PostNode(LaneOf[n],n,bad) /\ posts' = Count(posts,n) /\ UNCHANGED <<todo,bodies,pres>>
  \/ \E t \in {"t1","t2"} : /\ (\A n \in todo : TaskOf[n] # t \/ ~Cont(n))
                            /\ PostTask(t) /\ UNCHANGED <<todo,bodies,pres,posts>>
  \/ /\ Quiet /\ TasksDone
     /\ (ph = "after" \/ (Cardinality(DOMAIN tasks) = 2 /\ \A n \in todo : ~Cont(n)) \/ failed # {})
     /\ PostGraph /\ UNCHANGED <<todo,bodies,pres,posts>>
  \/ \E ok \in BOOLEAN : Answer(ok) /\ UNCHANGED <<todo,bodies,pres,posts>>
Spec == Init /\ [][Next]_mv /\ WF_mv(Next)
Ns == DOMAIN TaskOf
BodyWrapped == \A n \in Ns : (bodies[n] = 1 => pres[n] = NA) /\ bodies[n] <= 1 /\ (posts[n] > 0 => bodies[n] = 1)
GraphWraps == (\E n \in Ns : pres[n] > 0) => ph # "before"
AtEnd == outcome # "running" => /\ Quiet /\ TasksDone
                                /\ (outcome = "returned" => \A n \in Ns : bodies[n] = 1 /\ posts[n] = NA)
                                /\ (\A n \in Ns : bodies[n] = 1 /\ failed = {} => posts[n] = NA)
Ends == <>(outcome # "running")
=============================================================================
