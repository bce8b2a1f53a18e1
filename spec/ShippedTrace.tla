---------------------------- MODULE ShippedTrace ----------------------------
EXTENDS Shipped, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, files, err
tvars == <<tid, l, files, err>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
None0 == [cols |-> <<>>, v |-> <<>>]
Paths == {Ev[i].p : i \in {j \in DOMAIN Ev : Ev[j].ev \in {"save", "load"}}}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = "" /\ files = [p \in Paths |-> [is |-> FALSE, t |-> None0]]
Joined(a, b) == [cols |-> a.cols, v |-> [j \in DOMAIN a.v |-> a.v[j] \o b.v[j]]]
After == IF e.how = "add" THEN Joined(files[e.p].t, e.t) ELSE e.t
Clause ==
  CASE e.ev = "call" ->
         LET fs == Rng(e.fields)  kw == Rng(e.kw)  ds == Rng(e.defaults) IN
         IF ~e.ok THEN "adapter-failed"
         ELSE IF e.n # 1 THEN "library-not-called-once"
         ELSE IF e.unknown # <<>> THEN "argument-the-library-does-not-know"
         ELSE IF Lost(fs, kw) # {} THEN "argument-lost-or-changed"
         ELSE IF ~Faithful(fs, kw, ds) THEN "argument-nobody-gave"
         ELSE IF ~e.same THEN "data-not-passed-on" ELSE ""
    [] e.ev = "save" ->
         IF ~e.ok THEN "save-failed" ELSE IF ~MetaOk(e.meta, e.p, e.t) THEN "wrong-metadata" ELSE ""
    [] e.ev = "load" ->
         IF ~files[e.p].is THEN (IF e.ok THEN "loaded-from-nothing" ELSE "")
         ELSE IF ~e.ok THEN "load-failed"
         ELSE IF e.t # files[e.p].t THEN "loaded-something-else"
         ELSE IF ~MetaOk(e.meta, e.p, e.t) THEN "wrong-metadata" ELSE ""
    [] OTHER -> "unexpected-event"
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN
     IF c # "" THEN err' = c /\ UNCHANGED <<tid, l, files>>
     ELSE /\ l' = l + 1 /\ UNCHANGED <<tid, err>>
          /\ files' = IF e.ev = "save" THEN Save(files, e.p, [is |-> TRUE, t |-> After]) ELSE files
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, files, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
