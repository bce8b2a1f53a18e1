------------------------------ MODULE ClusterMC ------------------------------
\* All small programs of ExecMC run on the cluster in every order: the cluster refines Exec and always answers.
EXTENDS Cluster
CONSTANTS Deep, Small
M == INSTANCE ExecMC
Linked(p) == DOMAIN p.inputs # {} /\ Len(p.nodes["f"].params) <= 1 /\ Len(p.nodes["h"].params) = 2 /\ Len(p.nodes["g"].params) >= 1 /\ DOMAIN p.nodes["f"].opt = {} /\ "c" \notin RangeOf(p.nodes["h"].params)
Init == ClusterInit({p \in M!Progs : Small => Linked(p)})
Spec == Init /\ [][ClusterNext]_cvars /\ WF_cvars(ClusterNext)
RefinesExec == [][ExecNext]_execvars
=============================================================================
