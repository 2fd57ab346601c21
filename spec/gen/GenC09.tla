------------------------------- MODULE GenC09 -------------------------------
(* Derivatives along directions in the space of positions, damping parameters, partial charges and
   total charges, for every predefined method, model and damping scheme. *)
EXTENDS Families
Sizes == <<1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8>>
Batch(s) == s % 4 = 2
GNMol(s) == IF Batch(s) THEN PR(<<"nm", s>>, 2, 3) ELSE 1
GSize(s, m) == IF s % 150 = 77 THEN PR(<<"nl", s>>, 20, 34) ELSE IF s % 60 = 17 THEN 12 ELSE PS(<<"n", s, m>>, Sizes)
GElem(s, m, k) == IF k = 1 THEN SweepZ(s + 31 * m) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "tight", "grid", "loose", "loose", "wide", "line">>)
Api(s) == PS(<<"api", s>>, <<"dftd4", "dftd4", "DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero", "damp", "Disp">>)
MyTerms(s) == IF Api(s) = "Disp" THEN AnyTerms(<<"own", s>>) ELSE TermsOf(Api(s))
One1(c, k, v) == IF c THEN [x \in {k} |-> v] ELSE << >>
Damp(s) == PS(<<"damp", s>>, <<"zero", "mzero", "op">>)
UsesQ(s) == Api(s) = "damp" \/ ChgTerms(MyTerms(s))
Dir(key) == PR(key, -64, 64)
\* which inputs are varied
What(s) == PS(<<"what", s>>, <<"pos", "pos", "p", "q", "chg", "all", "all", "posp">>)
GFinish(s, ms) ==
  LET n(m) == Len(ms[m].z)
      L == Len(ms)
      api == IF Api(s) = "damp" THEN "dftd4" ELSE Api(s)
      zp == [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300), alp |-> PR(<<"al", s>>, 12000, 16000), bet |-> PR(<<"bet", s>>, 10, 300)]
      p == IF Api(s) \in {"DispD3Zero", "damp", "Disp"} THEN zp @@ RationalP(<<"p", s>>) ELSE VariedP(<<"p", s>>)
      base == [api |-> api, mols |-> FarOff(s, ms), layout |-> IF Batch(s) THEN "batch" ELSE "single", dtype |-> "float64",
               chg |-> [m \in 1..L |-> Charge(<<"tq", s, m>>)], p |-> p,
               terms |-> IF Api(s) = "damp" THEN <<Two(Damp(s), TRUE), Atm("atm-approx-bj")>> ELSE MyTerms(s),
               model |-> PS(<<"md", s>>, <<"d4", "d4", "d4s">>)]
      damp == IF Api(s) = "damp" THEN [damp |-> Damp(s)] ELSE << >>
      w == What(s)
      giveq == UsesQ(s) /\ (w = "q" \/ P(<<"gq", s>>, 3) = 0)
      q == IF giveq THEN [q |-> [m \in 1..L |-> [i \in 1..n(m) |-> QSoft(<<"q", s>>, m, i, n(m))]]] ELSE << >>
      dpos == IF w \in {"pos", "all", "posp"} \/ (w = "q" /\ ~giveq)
              THEN [dpos |-> [m \in 1..L |-> [i \in 1..n(m) |-> [x \in 1..3 |-> Dir(<<"dp", s, m, i, x>>)]]]] ELSE << >>
      dp == IF w \in {"p", "all", "posp"} THEN [dp |-> [k \in DOMAIN p |-> PR(<<"dpar", s, k>>, -300, 300)]] ELSE << >>
      dq == IF giveq /\ w \in {"q", "all"} THEN [dq |-> [m \in 1..L |-> [i \in 1..n(m) |-> PR(<<"dq", s, m, i>>, -300, 300)]]] ELSE << >>
      dchg == IF UsesQ(s) /\ w \in {"chg", "all"} /\ ~giveq THEN [dchg |-> [m \in 1..L |-> PS(<<"dc", s, m>>, <<4, -4, 2>>)]] ELSE << >>
      \* cutoffs keep all atoms in range or end in a gap
      pad == IF Batch(s) THEN [pad |-> P(<<"pad", s>>, 3), fill |-> PS(<<"fl", s>>, <<0, 64, 6400>>)] ELSE << >>
      inst == IF P(<<"inst", s>>, 4) = 0 THEN [model_as |-> "inst"] ELSE << >>
      md == base.model
      sym(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
      \* quantities and options the user supplies
      own == One1(P(<<"gr", s>>, 4) = 0, "r4r2", [m \in 1..L |-> [i \in 1..n(m) |-> R4Val(<<"r4", s>>, m, i)]])
             @@ One1(P(<<"gv", s>>, 4) = 0, "vdw", [m \in 1..L |-> [i \in 1..n(m) |-> [j \in 1..n(m) |-> VdWVal(<<"vd", s>>, m, i, j)]]])
             @@ One1(P(<<"gc", s>>, 4) = 0, "cut", [disp2 |-> PR(<<"c2", s>>, 150, 1600), disp3 |-> PR(<<"c3", s>>, 150, 1200), cn_eeq |-> PR(<<"ce", s>>, 250, 900)])
             @@ One1(P(<<"gf", s>>, 5) = 0, "cnf", PS(<<"gfv", s>>, <<"d4exp", "d3">>))
             @@ (IF P(<<"go", s>>, 4) = 0
                 THEN [model_as |-> "inst",
                       opt |-> One1(P(<<"oga", s>>, 2) = 0, "ga", PR(<<"ogav", s>>, 2048, 4096)) @@ One1(P(<<"ogc", s>>, 2) = 0, "gc", PR(<<"ogcv", s>>, 1024, 3000))
                               @@ One1(md = "d4" /\ P(<<"owf", s>>, 2) = 0, "wf", PR(<<"owfv", s>>, 4096, 8192))
                               @@ One1(P(<<"orc", s>>, 3) = 0, "rc6", PR(<<"orcv", s>>, 1, 11))
                               @@ One1(md = "d4s" /\ P(<<"owk", s>>, 3) = 0, "wfk", PR(<<"owkv", s>>, 1, 9))]
                 ELSE << >>)
      call == own @@ base @@ damp @@ q @@ dpos @@ dp @@ dq @@ dchg @@ pad @@ inst
      none == DOMAIN call \cap {"dpos", "dp", "dq", "dchg"} = {}
  IN [kind |-> "deriv",
      func |-> ~Batch(s) /\ s % 3 = 0,
      w |-> [m \in 1..L |-> [i \in 1..n(m) |-> IF s % 2 = 0 THEN 16 ELSE PR(<<"w", s, m, i>>, -32, 32)]],
      call |-> IF none THEN call @@ [dpos |-> [m \in 1..L |-> [i \in 1..n(m) |-> [x \in 1..3 |-> Dir(<<"dp", s, m, i, x>>)]]]] ELSE call]
=============================================================================
