----------------------------- MODULE ShippedMC -----------------------------
(* (1) A call is faithful if and only if the library then acts on exactly what was asked for, for every small adapter,
   every assignment of values and every possible call.  (2) Over every history of saves and loads, reading a path gives what was saved there last. *)
EXTENDS Shipped
CONSTANTS NF, Paths, Tables, Depth
VARIABLES fs, kw, files, hist, got
vars == <<fs, kw, files, hist, got>>
Vals == {None, "0", "1"}
Libs == SubSeq(<<"a", "b", "c">>, 1, NF)
Extra == "z"
Dfl == [k \in Rng(Libs) \cup {Extra} |-> IF k = "a" THEN "0" ELSE IF k = "b" THEN None ELSE "1"]
Defaults == {[k |-> k, v |-> Dfl[k]] : k \in DOMAIN Dfl}
CallSets == {{[k |-> k, v |-> g[k]] : k \in D} : D \in SUBSET DOMAIN Dfl, g \in [DOMAIN Dfl -> Vals]}
Fields == {{[n |-> k, lib |-> k, v |-> g[k], dflt |-> Dfl[k]] : k \in Rng(Libs)} : g \in [Rng(Libs) -> Vals]}
Idle == [p |-> "", t |-> Nothing]
Init ==
  /\ files = Fresh(Paths) /\ hist = <<>>
  /\ \/ got = [p |-> "args", t |-> Nothing] /\ fs \in Fields /\ kw \in CallSets
     \/ got = Idle /\ fs = {} /\ kw = {}
(* what the library ends up acting on; nothing asked for leaves it to the library *)
Acts(k) == IF Told(kw, k) THEN Value(kw, k) ELSE Dfl[k]
Asked(f) == f.v
Next == /\ got.p # "args" /\ UNCHANGED <<fs, kw>>
        /\ \E p \in Paths : \/ \E t \in Tables : files' = Save(files, p, t) /\ hist' = Append(hist, <<p, t>>) /\ got' = Idle
                            \/ got' = [p |-> p, t |-> files[p]] /\ UNCHANGED <<files, hist>>
Spec == Init /\ [][Next]_vars
Small == Len(hist) < Depth
FaithfulMeans == Faithful(fs, kw, Defaults) <=>
  /\ \A f \in fs : IF f.v = None THEN (Told(kw, f.lib) => Value(kw, f.lib) = None) ELSE Acts(f.lib) = f.v
  /\ Acts(Extra) = Dfl[Extra]
(* leaving out any argument that matters is not faithful *)
DropShows == Faithful(fs, kw, Defaults) => \A p \in kw : LET less == kw \ {p} IN (p \notin Defaults /\ p.v # None) => ~Faithful(fs, less, Defaults)
AlterShows == Faithful(fs, kw, Defaults) => \A p \in kw, w \in Vals \ {None} : w # p.v => ~Faithful(fs, (kw \ {p}) \cup {[p EXCEPT !.v = w]}, Defaults)
Last(p) == LET S == {i \in DOMAIN hist : hist[i][1] = p} IN IF S = {} THEN Nothing ELSE hist[CHOOSE i \in S : \A j \in S : j <= i][2]
LastSaved == got.p \in Paths => got.t = Last(got.p)
Isolated == \A p \in Paths : files[p] = Last(p)
=============================================================================
