---------------------------- MODULE VersionsTrace ----------------------------
EXTENDS Versions, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, cur, hist, known, bags, err
tvars == <<tid, l, cur, hist, known, bags, err>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
cfg == IF T.key = "" THEN [x \in {} |-> ""] ELSE [x \in {T.key} |-> T.val]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = "" /\ cur = <<>> /\ hist = <<>> /\ known = {} /\ bags = {}
Pairs == {<<Version(cur, cfg, e.nodes[i].n), e.nodes[i].h>> : i \in {j \in DOMAIN e.nodes : e.nodes[j].n \in FnNodes(cur, cfg)}}
(* same files up to comments and layout: same version; other code: another version *)
Mine == [b |-> Bag(cur, cfg), c |-> cur, h |-> e.hash]
Single(S) == \A x \in Outside(S, cfg) : Cardinality({f \in In(S, cfg) : x \in Rng(f.ps)}) <= 1
BagClash == \E p \in bags : ((p.c = cur \/ (p.b = Bag(cur, cfg) /\ Single(cur))) /\ p.h # e.hash) \/ (p.b # Bag(cur, cfg) /\ p.h = e.hash)
Clash(S) == \E p, q \in S : (p[1] = q[1]) # (p[2] = q[2])
Said(s) == {s[i].n : i \in DOMAIN s}
FnOk(s, S) == \A i \in DOMAIN s : s[i].n \in FnNodes(S, cfg) => s[i].f \in {Origin(S, cfg, s[i].n).o, Origin(S, cfg, s[i].n).n}
Mark(r, n) == IF n \in CurOnly(cur, r, cfg) THEN "cur" ELSE IF n \in RefOnly(cur, r, cfg) THEN "ref" ELSE IF n \in Edited(cur, r, cfg) THEN "edit" ELSE "same"
(* asking for something from outside that is not given is left open *)
Open == (Rng(e.final) \cap Outside(cur, cfg)) \ (Rng(e.ins) \cup DOMAIN cfg) # {}
Clause ==
  CASE e.ev \in {"edit", "commit"} -> ""
    [] e.ev = "version" ->
         IF ~e.ok THEN "version-failed"
         ELSE IF Said(e.nodes) # Nodes(cur, cfg) \/ Len(e.nodes) # Cardinality(Nodes(cur, cfg)) THEN "wrong-nodes"
         ELSE IF Clash(known \cup Pairs) THEN "version-does-not-tell-code"
         ELSE IF BagClash THEN "dataflow-version-does-not-tell-code" ELSE ""
    [] e.ev = "diff" ->
         LET r == hist[e.ref] IN
         IF ~e.ok THEN "diff-failed"
         ELSE IF Said(e.cur) # CurOnly(cur, r, cfg) THEN "wrong-additions"
         ELSE IF Said(e.ref_) # RefOnly(cur, r, cfg) THEN "wrong-removals"
         ELSE IF Said(e.edit) \cap Both(cur, r, cfg) # Edited(cur, r, cfg) \/ ~(Said(e.edit) \subseteq Nodes(cur, cfg) \cap Nodes(r, cfg)) THEN "wrong-edits"
         ELSE IF ~(FnOk(e.cur, cur) /\ FnOk(e.ref_, r) /\ FnOk(e.edit, cur)) THEN "wrong-function-named"
         ELSE IF e.view /\ LET F == FnNodes(cur, cfg) \cup FnNodes(r, cfg)
                           M == {[n |-> e.marks[i].n, m |-> e.marks[i].m] : i \in DOMAIN e.marks}
                           sure(n) == n \in Both(cur, r, cfg) \/ n \notin (Nodes(cur, cfg) \cap Nodes(r, cfg)) IN
                       \/ {m.n : m \in M} # F
                       \/ {m \in M : sure(m.n)} # {[n |-> n, m |-> Mark(r, n)] : n \in {x \in F : sure(x)}} THEN "wrong-picture"
         ELSE ""
    [] e.ev = "validate" ->
         IF ~Open /\ e.ok # Runs(cur, cfg, Rng(e.final), Rng(e.ins), Rng(e.ovr)) THEN "wrong-validation" ELSE ""
    [] OTHER -> "unexpected-event"
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<tid, l, cur, hist, known, bags>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
          /\ cur' = IF e.ev = "edit" THEN e.fns ELSE cur
          /\ hist' = IF e.ev = "commit" THEN Append(hist, cur) ELSE hist
          /\ known' = IF e.ev = "version" THEN known \cup Pairs ELSE known
          /\ bags' = IF e.ev = "version" THEN bags \cup {Mine} ELSE bags
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, cur, hist, known, bags, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
