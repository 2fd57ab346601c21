------------------------------- MODULE GenC03 -------------------------------
(* Three-body energies: for given C9 and radii, and through every kind of three-body term. *)
EXTENDS Families
Large(s) == s % 120 = 50
Batch(s) == s % 4 = 0
GNMol(s) == IF Batch(s) THEN PR(<<"nm", s>>, 2, 3) ELSE 1
GSize(s, m) == IF Large(s) THEN PR(<<"n", s, m>>, 40, 75) ELSE IF s % 30 = 1 THEN PR(<<"n", s, m>>, 12, 16) ELSE PR(<<"n", s, m>>, IF s % 8 = 2 THEN 1 ELSE 3, 7)
GElem(s, m, k) == IF k = 1 THEN SweepZ(s) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "grid", "loose", "loose", "wide", "far", "line">>)
Sym(key, i, j, lo, hi) == IF i < j THEN PR(<<key, i, j>>, lo, hi) ELSE PR(<<key, j, i>>, lo, hi)
Kind(s) == IF Large(s) THEN PS(<<"kd", s>>, <<"raw", "atm-approx-bj">>) ELSE PS(<<"kd", s>>, <<"raw", "atm-approx-bj", "atm-exact-bj", "atm-approx-vdw">>)
Damp3(s) == PS(<<"dmp", s>>, <<"zero", "zero", "zero", "zero", "zero", "zero", "soft", "plain">>)    \* users may bring their own damping
Alp(s) == PS(<<"alp", s>>, <<16384, 14336, 12288, 18432>>)
GFinish(s, ms) ==
  LET n(m) == Len(ms[m].z)
      base == Nested(s, Len(ms)) @@ [mols |-> IF s % 7 = 3 THEN ms ELSE FarOff(s, ms), layout |-> IF Batch(s) THEN "batch" ELSE "single", dtype |-> IF s % 7 = 3 THEN "float32" ELSE "float64"]
      cut == IF s % 2 = 0 THEN [cut |-> [disp3 |-> PR(<<"cut", s>>, 200, 1500)]] ELSE << >>
      pad == IF Batch(s) THEN [pad |-> P(<<"pad", s>>, 3), fill |-> PS(<<"fl", s>>, <<0, 0, 64, 6400>>)] ELSE << >>
      raw == base @@ (IF Damp3(s) = "zero" THEN << >> ELSE [damp |-> Damp3(s)]) @@ [p |-> [s9 |-> PS(<<"s9", s>>, <<1024, 0, 700, -512>>), alp |-> Alp(s)],
               u |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> PR(<<"u", s, m, i>>, 512, 9000)]],
               rad |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> [j \in 1..n(m) |-> Sym(<<"vd", s, m>>, i, j, 2000, 9000)]]]]
      fullp == [s9 |-> PS(<<"s9", s>>, <<1024, 1024, 0, 700>>), alp |-> Alp(s), a1 |-> PR(<<"a1", s>>, 100, 900),
                a2 |-> PR(<<"a2", s>>, 2048, 7000), rs9 |-> PR(<<"rs9", s>>, 700, 1600)]
      \* parameters of the two-body terms: a three-body energy does not depend on them
      other == IF P(<<"oth", s>>, 2) = 0 THEN [s6 |-> PR(<<"os6", s>>, 300, 1300), s8 |-> PR(<<"os8", s>>, 0, 2500), s10 |-> PR(<<"os10", s>>, 0, 500),
                rs6 |-> PR(<<"ors6", s>>, 1100, 1500), rs8 |-> PR(<<"ors8", s>>, 600, 950), bet |-> PR(<<"obet", s>>, 1, 40)] ELSE << >>
      drop == CASE P(<<"dr", s>>, 6) = 0 -> {"s9"} [] P(<<"dr", s>>, 6) = 1 -> {"alp"}
                [] P(<<"dr", s>>, 6) = 2 -> {"a1", "a2", "rs9"} [] P(<<"dr", s>>, 6) = 3 -> {"rs9"}
                [] P(<<"dr", s>>, 6) = 4 -> {"a1"} [] OTHER -> {}
      nul == CASE P(<<"nul", s>>, 8) = 0 -> {"a1"} [] P(<<"nul", s>>, 8) = 1 -> {"a2"} [] P(<<"nul", s>>, 8) = 2 -> {"alp"}
               [] P(<<"nul", s>>, 8) = 3 -> {"rs9"} [] OTHER -> {}
      chg == P(<<"chg", s>>, 3) = 0
      term == base @@ [api |-> "Disp", model |-> PS(<<"md", s>>, <<"d4", "d4s">>),
                p |-> [k \in DOMAIN fullp \ drop |-> IF k \in nul THEN 0 ELSE fullp[k]] @@ other, p_as |-> PS(<<"pa", s>>, <<"tensor", "float">>),
                chg |-> [m \in 1..Len(ms) |-> Charge(<<"tq", s, m>>)],
                terms |-> <<[kind |-> Kind(s), damp |-> Damp3(s), chg |-> chg]>>]
      cn == IF s % 5 = 1 THEN [cnf |-> PS(<<"cnf", s>>, <<"d3", "d4exp">>)] ELSE << >>
  IN IF Kind(s) = "raw" THEN [kind |-> "atmraw", call |-> raw @@ cut @@ pad]
     ELSE [kind |-> "calls", calls |-> <<term @@ cut @@ pad @@ cn>>]
=============================================================================
