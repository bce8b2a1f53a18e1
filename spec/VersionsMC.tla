----------------------------- MODULE VersionsMC -----------------------------
(* Every history of edits and commits over two functions: laws of versions and differences. *)
EXTENDS Versions
CONSTANTS Depth
VARIABLES cur, cosm, hist, steps, last
vars == <<cur, cosm, hist, steps, last>>
F(n, ps, b, k, out) == [n |-> n, o |-> n, ps |-> ps, body |-> b, tg |-> 0, k |-> k, out |-> out, key |-> "c", val |-> "1"]
Slot1 == {<<>>} \cup {<<F("a", <<"x">>, b, k, IF k = "plain" \/ k = "when" THEN <<>> ELSE <<"a1", "a2">>)>> : b \in 0..1, k \in {"plain", "param", "fields", "when"}}
Slot2 == {<<>>} \cup {<<F("b", p, b, "plain", <<>>)>> : b \in 0..1, p \in {<<"a">>, <<"a1", "y">>}}
Cfgs == {[x \in {} |-> ""], [c |-> "1"], [c |-> "2"]}
Snap == {s \o t : s \in Slot1, t \in Slot2}
Init == cur \in Snap /\ cosm = 0 /\ hist = <<>> /\ steps = 0 /\ last = "init"
Edit == cur' \in Snap /\ last' = "edit" /\ UNCHANGED <<cosm, hist>>
Cosmetic == cosm' = 1 - cosm /\ last' = "cosmetic" /\ UNCHANGED <<cur, hist>>
Commit == hist' = Append(hist, cur) /\ last' = "commit" /\ UNCHANGED <<cur, cosm>>
Next == steps < Depth /\ steps' = steps + 1 /\ (Edit \/ Cosmetic \/ Commit)
Spec == Init /\ [][Next]_vars
Refs == Rng(hist)
CleanIsEmpty == (hist # <<>> /\ last = "commit") => \A c \in Cfgs : LET r == hist[Len(hist)] IN CurOnly(cur, r, c) = {} /\ RefOnly(cur, r, c) = {} /\ Edited(cur, r, c) = {}
Swap(A, B, c) == (Nodes(A, c) \cap Nodes(B, c)) \ Both(A, B, c)      \* from outside in one of them at least
Partition == \A r \in Refs, c \in Cfgs : /\ Nodes(cur, c) = CurOnly(cur, r, c) \cup Edited(cur, r, c) \cup Same(cur, r, c) \cup Swap(cur, r, c)
                                         /\ Nodes(r, c) = RefOnly(cur, r, c) \cup Edited(cur, r, c) \cup Same(cur, r, c) \cup Swap(cur, r, c)
Mirror == \A r \in Refs, c \in Cfgs : CurOnly(cur, r, c) = RefOnly(r, cur, c) /\ Edited(cur, r, c) = Edited(r, cur, c)
QuietMeansSame == \A r \in Refs, c \in Cfgs : (CurOnly(cur, r, c) = {} /\ RefOnly(cur, r, c) = {} /\ Edited(cur, r, c) = {} /\ FnNodes(cur, c) = FnNodes(r, c)) => Bag(cur, c) = Bag(r, c)
CosmeticInvisible == [][last' = "cosmetic" => cur' = cur]_vars
=============================================================================
