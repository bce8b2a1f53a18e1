------------------------------ MODULE Shipped ------------------------------
(* The data adapters shipped with the library.

   Arguments.  An adapter has fields [n, lib, v, dflt]: the name, the library's name for the same
   thing, the value it holds ("None": nothing asked for), and what the library does when it is not
   told ("~": the library has no default).  A call is a set of [k, v].  The library acts on what it is told and fills in its
   own defaults, so a call is faithful exactly if that leads to what was asked for.

   Files.  A store maps each path to the table saved there last. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
None == "None"
Told(kw, k) == \E p \in kw : p.k = k
Value(kw, k) == (CHOOSE p \in kw : p.k = k).v
Passed(f, kw) == IF Told(kw, f.lib) THEN Value(kw, f.lib) = f.v ELSE f.v = None \/ f.v = f.dflt
Lost(fs, kw) == {f \in fs : ~Passed(f, kw)}
(* something said to the library that no field stands for, and that is not its default *)
Stray(fs, kw, defaults) == {p \in kw : p.k \notin {f.lib : f \in fs} /\ p \notin defaults}
Faithful(fs, kw, defaults) == Lost(fs, kw) = {} /\ Stray(fs, kw, defaults) = {} /\ \A p, q \in kw : p.k = q.k => p = q
(* --- files --- *)
Nothing == "~"
Fresh(paths) == [p \in paths |-> Nothing]
Save(files, p, t) == [files EXCEPT ![p] = t]
Rows(t) == IF t.v = <<>> THEN 0 ELSE Len(t.v[1])
MetaOk(m, p, t) ==
  /\ m.path # "~" => m.path = p
  /\ m.size # "~" => m.size = m.real
  /\ m.rows # "~" => m.rows = ToString(Rows(t))
  /\ m.ncols # "~" => m.ncols = ToString(Len(t.cols))
  /\ m.cols # <<"~">> => m.cols = t.cols
=============================================================================
