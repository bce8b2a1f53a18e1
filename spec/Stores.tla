-------------------------------- MODULE Stores -------------------------------
(***************************************************************************)
(* The two stores behind the cache, as abstract data types.  Every         *)
(* implementation (SQLite / in memory, file / in memory), through any      *)
(* number of handles (objects, threads, processes, re-opened stores), must *)
(* behave like this one atomic object.                                     *)
(*   mm    cache key -> data version                                       *)
(*   runs  run ids in the order of initialisation                          *)
(*   hist  <<run id, cache key>> in the order of the set() calls           *)
(*   rr    data version -> value                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mm, runs, hist, rr
storevars == <<mm, runs, hist, rr>>
EmptyF == [x \in {} |-> 0]
StoreInit == mm = EmptyF /\ runs = <<>> /\ hist = <<>> /\ rr = EmptyF

InitRun(r)     == runs' = Append(runs, r) /\ UNCHANGED <<mm, hist, rr>>
SetMeta(r,k,v) == mm' = ((k :> v) @@ mm) /\ hist' = Append(hist, <<r, k>>) /\ UNCHANGED <<runs, rr>>
DelMeta(k)     == mm' = [x \in DOMAIN mm \ {k} |-> mm[x]] /\ UNCHANGED <<runs, hist, rr>>
DelAllMeta     == mm' = EmptyF /\ runs' = <<>> /\ hist' = <<>> /\ UNCHANGED rr
SetRes(v,c)    == rr' = ((v :> c) @@ rr) /\ UNCHANGED <<mm, runs, hist>>
DelRes(v)      == rr' = [x \in DOMAIN rr \ {v} |-> rr[x]] /\ UNCHANGED <<mm, runs, hist>>
DelAllRes      == rr' = EmptyF /\ UNCHANGED <<mm, runs, hist>>
\* copying a store into another implementation keeps everything that can still be looked up
CopyMeta       == hist' = SelectSeq(hist, LAMBDA h : h[2] \in DOMAIN mm) /\ UNCHANGED <<mm, runs, rr>>
\* the results that metadata still refers to are carried over
CopyRes        == rr' = [v \in DOMAIN rr \cap {mm[hist[i][2]] : i \in {i \in 1..Len(hist) : hist[i][2] \in DOMAIN mm}} |-> rr[v]]
                  /\ UNCHANGED <<mm, runs, hist>>

KnownRun(r) == \E i \in 1..Len(runs) : runs[i] = r
RunRows(r)  == LET s == SelectSeq(hist, LAMBDA h : h[1] = r /\ h[2] \in DOMAIN mm)
               IN [i \in 1..Len(s) |-> <<s[i][2], mm[s[i][2]]>>]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
=============================================================================
