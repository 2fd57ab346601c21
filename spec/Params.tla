------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The damping-parameter tables and the meaning of a lookup.  Tables are   *)
(* frozen from the pinned commit (spec/data/params.json).                  *)
(*   [default, defaults : <<variant, entry>>*, functionals : <<name, <<variant, entry>>*>>*]   *)
(* An entry is a sequence of <<key, value>>, sorted by key.                *)
(***************************************************************************)
EXTENDS R64, IOUtils, FiniteSets
PTab == Load(IOEnv.SPECDATA \o "/params.json")
Methods == {"d3", "d4"}
None == "<none>"

Find(seq, key) == {k \in 1..Len(seq) : seq[k][1] = key}
At1(seq, key) == seq[CHOOSE k \in Find(seq, key) : TRUE][2]

\* the variants tabulated for a functional
Section(m, f) == IF f \in {None, "default"} THEN PTab[m].defaults
                 ELSE IF Find(PTab[m].functionals, f) = {} THEN << >> ELSE At1(PTab[m].functionals, f)
VariantOf(m, v) == IF v = None THEN PTab[m].default ELSE v
Known(m, f, v) == m \in Methods /\ Find(Section(m, f), VariantOf(m, v)) # {}
Entry(m, f, v, doi) ==
  LET e == At1(Section(m, f), VariantOf(m, v))
  IN IF doi THEN e ELSE SelectSeq(e, LAMBDA p : p[1] # "doi")

Textual == {"doi", "damping", "mbd"}
SameEntry(a, b) ==
  Len(a) = Len(b) /\ \A k \in 1..Len(a) :
     a[k][1] = b[k][1] /\ IF a[k][1] \in Textual THEN a[k][2] = b[k][2] ELSE REq(a[k][2], b[k][2])

\* a lookup answers with exactly the entry or refuses with a key error
LookupOk(op, ob) ==
  IF Known(op.method, op.func, op.var)
  THEN ~("err" \in DOMAIN ob) /\ SameEntry(ob.entry, Entry(op.method, op.func, op.var, op.doi))
  ELSE "err" \in DOMAIN ob /\ (op.method \in Methods => ob.err = "KeyError")
=============================================================================
