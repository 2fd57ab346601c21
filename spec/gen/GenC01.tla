------------------------------- MODULE GenC01 -------------------------------
(* One call of a main entry point, for a molecule or a small batch: every energy must be the model energy. *)
EXTENDS Families
Large(s) == s % 160 \in {7, 47, 86, 127}
Batch(s) == ~Large(s) /\ s % 6 = 2
GNMol(s) == IF Batch(s) THEN PR(<<"nm", s>>, 2, 3) ELSE 1
GSize(s, m) ==
  CASE s % 160 \in {7, 47} -> PR(<<"n", s>>, 20, 40)
    [] s % 160 = 86 -> PR(<<"n", s>>, 50, 90)
    [] s % 160 = 127 -> PR(<<"n", s>>, 90, 135)
    [] s % 16 = 0 -> PR(<<"n", s, m>>, 8, 16)
    [] s % 16 = 1 -> 1
    [] OTHER -> PR(<<"n", s, m>>, 2, 7)
GElem(s, m, k) == IF k <= 2 /\ m = 1 THEN SweepZ(2 * s + k) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "tight", "grid", "loose", "loose", "wide", "line">>)
GFinish(s, ms) ==
  LET api == IF Large(s) THEN "dftd4" ELSE PS(<<"api", s>>, <<"dftd4", "dftd4", "DispD4", "DispD4Exact">>)
      L == Len(ms)
  IN [kind |-> "calls",
      calls |-> <<Nested(s, L) @@ [api |-> api, mols |-> IF ~Large(s) /\ s % 9 = 4 THEN ms ELSE FarOff(s, ms), layout |-> IF Batch(s) THEN "batch" ELSE "single",
                   dtype |-> IF ~Large(s) /\ s % 9 = 4 THEN "float32" ELSE "float64",
                   model |-> PS(<<"md", s>>, <<"d4", "d4s">>),
                   model_as |-> PS(<<"mi", s>>, <<"key", "key", "inst">>),
                   chg |-> [m \in 1..L |-> Charge(<<"q", s, m>>)], p |-> VariedP(<<"p", s>>), terms |-> TermsOf(api)]>>]
=============================================================================
