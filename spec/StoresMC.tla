------------------------------ MODULE StoresMC -------------------------------
(* all op sequences over small domains: the ADT keeps its bookkeeping consistent *)
EXTENDS Stores
CONSTANTS Keys, Vers, RunIds, MaxOps
VARIABLE n
Init == StoreInit /\ n = 0
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E r \in RunIds : ~KnownRun(r) /\ InitRun(r)
           \/ \E r \in RunIds, k \in Keys, v \in Vers : KnownRun(r) /\ SetMeta(r,k,v)
           \/ \E k \in Keys : DelMeta(k)
           \/ DelAllMeta
           \/ \E v \in Vers : SetRes(v, v) \/ DelRes(v)
           \/ DelAllRes \/ CopyMeta \/ CopyRes
Spec == Init /\ [][Next]_<<storevars, n>>
\* every key that can be looked up is accounted for by a known run, every result belongs to the version it is stored under
Accounted == \A k \in DOMAIN mm : \E i \in 1..Len(hist) : hist[i][2] = k /\ KnownRun(hist[i][1])
RowsCurrent == \A r \in RunIds : \A i \in 1..Len(RunRows(r)) : mm[RunRows(r)[i][1]] = RunRows(r)[i][2]
ResultsTheirs == \A v \in DOMAIN rr : rr[v] = v
NoDuplicates == \A i, j \in 1..Len(runs) : runs[i] = runs[j] => i = j
=============================================================================
