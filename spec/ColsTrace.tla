----------------------------- MODULE ColsTrace -----------------------------
EXTENDS Cols, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, err
tvars == <<tid, l, err>>
T == Traces[tid]
Ev == T.ev
e == Ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ err = ""
Cnt(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
More(a, b) == \E x \in Rng(a) : Cnt(a, x) > Cnt(b, x)
Idx(fn) == CHOOSE i \in DOMAIN T.ws : T.ws[i].fn = fn
IsW(n) == \E i \in DOMAIN T.ws : T.ws[i].fn = n
(* e.want: [k, w, n]: a frame (w: the function), or a node n of it *)
FromFrame(W, S) == \E n \in S : n \in Rng(Given(W)) \/ (n \in Rng(FnNames(W, e.cfg)) /\ Fn(W, e.cfg, n).get # "")
NodesFor(x) == IF x.k = "frame" THEN Need(T.ws[Idx(x.w)], e.cfg) ELSE Close(T.ws[Idx(x.w)], e.cfg, {x.n})
RECURSIVE Up(_)
Up(S) == LET S2 == S \cup {T.ws[Idx(f)].df : f \in S} IN LET S3 == {f \in S2 : IsW(f)} IN IF S3 = S THEN S ELSE Up(S3)
NeededFrames == Up({x.w : x \in {y \in Rng(e.want) : y.k = "frame"}} \cup
                   {f \in {T.ws[Idx(x.w)].df : x \in {y \in Rng(e.want) : y.k = "node" /\ FromFrame(T.ws[Idx(y.w)], NodesFor(y))}} : IsW(f)})
NodesOf(i) == LET W == T.ws[i] IN (IF W.fn \in NeededFrames THEN Need(W, e.cfg) ELSE {}) \cup UNION {NodesFor(x) : x \in {y \in Rng(e.want) : y.k = "node" /\ y.w = W.fn}}
LacksFor(W, S, D) == \E n \in S : LET c == IF n \in Rng(Given(W)) THEN n ELSE Fn(W, e.cfg, n).get IN c # "" /\ c \notin Rng(ColsOf(D))
Text(x) == IF T.lib = "lazy" THEN x.n ELSE x.t
RECURSIVE Loose(_)
Loose(fn) == IsW(fn) /\ (T.ws[Idx(fn)].all \/ Loose(T.ws[Idx(fn)].df))      \* without a selection the order of the new columns is open
SameFrame(fn, a, b) == IF Loose(fn) THEN Rng(a) = Rng(b) /\ Len(a) = Len(b) /\ \A i \in DOMAIN e.df : a[i].c = e.df[i].c ELSE a = b
RunClause ==
  LET env == Outer(T.outer, e.ins, 1)
      fr == Frames(T.ws, e.cfg, env, [x \in {"df"} |-> e.df], 1)
      can == /\ \A f \in NeededFrames : Has(fr, f)
             /\ \A x \in Rng(e.want) : x.k = "node" => LET W == T.ws[Idx(x.w)] IN FromFrame(W, NodesFor(x)) => (Has(fr, W.df) /\ ~LacksFor(W, NodesFor(x), fr[W.df]))
      D(i) == IF Has(fr, T.ws[i].df) THEN fr[T.ws[i].df] ELSE <<>>
      owed == LET Ofi[i \in 0..Len(T.ws)] == IF i = 0 THEN <<>> ELSE
                    Ofi[i-1] \o (LET ns == SelectSeq(FnNames(T.ws[i], e.cfg), LAMBDA n : n \in NodesOf(i)) IN
                                 [j \in DOMAIN ns |-> [n |-> ns[j], t |-> CallText(T.ws[i], e.cfg, D(i), env, ns[j])]])
              IN Ofi[Len(T.ws)]
      got == [i \in DOMAIN e.calls |-> Text(e.calls[i])]
      ow == [i \in DOMAIN owed |-> Text(owed[i])] IN
  IF ~can THEN (IF e.ok THEN "missing-column-not-reported" ELSE "")
  ELSE IF ~e.ok THEN "valid-run-failed"
  ELSE IF \E i \in DOMAIN e.want : LET x == e.want[i] IN x.k = "frame" /\ ~SameFrame(x.w, e.res[i].f, fr[x.w]) THEN "wrong-frame"
  ELSE IF \E i \in DOMAIN e.want : LET x == e.want[i] IN x.k = "frame" /\ e.res[i].idx # e.idx THEN "wrong-index"
  ELSE IF \E i \in DOMAIN e.want : LET x == e.want[i] IN x.k = "node" /\ T.lib # "lazy" /\
            (LET v == Val(T.ws[Idx(x.w)], e.cfg, D(Idx(x.w)), env, x.n) IN e.res[i].v # v.v \/ e.res[i].k # v.k) THEN "wrong-node-value"
  ELSE IF e.after # e.df THEN "input-frame-changed"
  ELSE IF More(got, ow) THEN "called-more-than-owed"
  ELSE IF More(ow, got) THEN "not-called"
  ELSE IF \E i \in DOMAIN T.ws : T.ws[i].fn \in NeededFrames /\ Cnt(e.finals, T.ws[i].fn \o "(" \o Join([j \in DOMAIN T.ws[i].extra |-> env[T.ws[i].extra[j]]], ",") \o ")") # 1 THEN "function-not-called-right"
  ELSE ""
Clause ==
  CASE e.ev = "build" -> LET bad == \E i \in DOMAIN T.ws : Clash(T.ws[i], e.cfg) IN
                         IF bad /\ e.ok THEN "clash-accepted" ELSE IF ~bad /\ ~e.ok THEN "valid-program-refused" ELSE ""
    [] e.ev = "run" -> RunClause
    [] OTHER -> "unexpected-event"
Step ==
  /\ err = "" /\ l <= Len(Ev)
  /\ LET c == Clause IN IF c # "" THEN err' = c /\ UNCHANGED <<tid, l>> ELSE l' = l + 1 /\ UNCHANGED <<tid, err>>
Report ==
  /\ (err # "" \/ l = Len(Ev) + 1) /\ l <= Len(Ev) + 1
  /\ PrintT(<<"VERDICT", tid, IF err # "" THEN err ELSE "ok", l>>)
  /\ l' = Len(Ev) + 2 /\ UNCHANGED <<tid, err>>
Next == Step \/ Report
TraceSpec == Init /\ [][Next]_tvars
=============================================================================
