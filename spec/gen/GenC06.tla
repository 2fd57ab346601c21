------------------------------- MODULE GenC06 -------------------------------
(* The same molecules in a padded batch, in a differently arranged batch and one by one. *)
EXTENDS Families
Sizes == <<1, 1, 2, 2, 3, 3, 4, 5, 6, 8>>
GNMol(s) == IF s % 60 = 9 THEN PS(<<"nl", s>>, <<12, 12, 20>>) ELSE IF s % 20 = 3 THEN 6 ELSE PR(<<"nm", s>>, 1, 4)
GSize(s, m) == IF s % 240 = 125 /\ m = 1 THEN 68 ELSE IF s % 80 = 45 /\ m = 1 THEN 32 ELSE IF s % 40 = 5 /\ m = 1 THEN 14 ELSE PS(<<"n", s, m>>, Sizes)
GElem(s, m, k) == IF k = 1 THEN SweepZ(s * 4 + m) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "tight", "grid", "loose", "wide", "line">>)
Api(s) == PS(<<"api", s>>, <<"dftd4", "dftd4", "DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero", "props", "damp", "Disp">>)
MyTerms(s) == IF Api(s) = "Disp" THEN AnyTerms(<<"own", s>>) ELSE TermsOf(Api(s))
UsesQ(s) == Api(s) = "damp" \/ (Api(s) # "props" /\ ChgTerms(MyTerms(s)))
Damp(s) == PS(<<"damp", s>>, <<"zero", "mzero", "op">>)
Refq(s) == IF P(<<"rq", s>>, 5) = 0 THEN "gfn2" ELSE "eeq"
Sym(key, i, j, lo, hi) == IF i < j THEN PR(<<key, i, j>>, lo, hi) ELSE PR(<<key, j, i>>, lo, hi)
\* the molecules of a call are those listed in ix
Call(s, ms, ix, layout, extra) ==
  LET n(m) == Len(ms[m].z)
      L == Len(ix)
      api == IF Api(s) = "damp" THEN "dftd4" ELSE Api(s)
      zp == [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300), alp |-> 14336, bet |-> PR(<<"bet", s>>, 10, 300)]
      p == IF Api(s) \in {"DispD3Zero", "damp", "Disp"} THEN zp @@ RationalP(<<"p", s>>) ELSE VariedP(<<"p", s>>)
      base == [api |-> api, mols |-> LET a == [k \in 1..L |-> ms[ix[k]]] IN IF s % 6 = 1 THEN a ELSE FarOff(s, a), layout |-> layout, dtype |-> IF s % 6 = 1 THEN "float32" ELSE "float64",
               chg |-> [k \in 1..L |-> Charge(<<"tq", s, ix[k]>>)],
               p |-> p,
               terms |-> IF Api(s) = "damp" THEN <<Two(Damp(s), TRUE), Atm("atm-approx-bj")>>
                         ELSE IF api = "props" THEN << >> ELSE MyTerms(s)]
      model == IF api = "props" THEN << >> ELSE [model |-> PS(<<"md", s>>, <<"d4", "d4s">>), want |-> <<"grad">>]
      damp == IF Api(s) = "damp" THEN [damp |-> Damp(s)] ELSE << >>
      inst == IF api # "props" /\ P(<<"inst", s>>, 4) = 0 THEN [model_as |-> "inst"] ELSE << >>
      opt == IF api \notin {"props", "dftd4"} /\ Refq(s) = "gfn2" /\ \A m \in 1..Len(ms) : \A i \in 1..n(m) : ms[m].z[i] <= 86
             THEN [opt |-> [refq |-> "gfn2"]] ELSE << >>
      q == IF UsesQ(s) /\ P(<<"gq", s>>, 3) = 0
           THEN [q |-> [k \in 1..L |-> [i \in 1..n(ix[k]) |-> QVal(<<"q", s>>, ix[k], i, n(ix[k]))]]] ELSE << >>
      r4 == IF api # "props" /\ P(<<"gr", s>>, 4) = 0
            THEN [r4r2 |-> [k \in 1..L |-> [i \in 1..n(ix[k]) |-> R4Val(<<"r4", s>>, ix[k], i)]]] ELSE << >>
      vd == IF api # "props" /\ P(<<"gv", s>>, 4) = 0
            THEN [vdw |-> [k \in 1..L |-> [i \in 1..n(ix[k]) |-> [j \in 1..n(ix[k]) |-> VdWVal(<<"vd", s>>, ix[k], i, j)]]]] ELSE << >>
      cut == IF P(<<"cut", s>>, 3) = 0 /\ api # "props"
             THEN [cut |-> [disp2 |-> PR(<<"c2", s>>, 150, 3000), disp3 |-> PR(<<"c3", s>>, 150, 2000), cn_eeq |-> PR(<<"c4", s>>, 200, 1600)]]
             ELSE << >>
  IN extra @@ base @@ model @@ damp @@ inst @@ opt @@ q @@ r4 @@ vd @@ cut
MaxSize(ms) == CHOOSE x \in {Len(ms[m].z) : m \in 1..Len(ms)} : \A m \in 1..Len(ms) : Len(ms[m].z) <= x
\* padding anywhere, not only at the end, and charges as a column
Spread3(s, k, w) == (IF P(<<"cols", s, k>>, 2) = 0 THEN [cols |-> Slots(<<"slot", s, k>>, w)] ELSE << >>)
                    @@ (IF P(<<"ccol", s, k>>, 3) = 0 THEN [chg_as |-> "column"] ELSE << >>)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
GFinish(s, ms) ==
  LET L == Len(ms)
      all == [k \in 1..L |-> k]
      other == IF s % 2 = 0 THEN Rev(all) ELSE all \o <<1>>
      b1 == Call(s, ms, all, "batch", [pad |-> 0])
      pad == PR(<<"pad", s>>, 1, 4)
      b2 == Call(s, ms, other, "batch", [pad |-> pad, fill |-> PS(<<"fl", s>>, <<0, 0, 64, 640, 12800>>)] @@ Spread3(s, 2, pad + MaxSize(ms)))
      b3 == Call(s, ms, all, "batch3", [pad |-> 1, group |-> IF L % 2 = 0 /\ s % 4 = 0 THEN 2 ELSE 1] @@ Spread3(s, 3, 1 + MaxSize(ms)))
      \* a molecule by itself may carry padding, too
      one(k) == IF P(<<"pad1", s, k>>, 4) > 0 THEN << >>
                ELSE LET x == PR(<<"pad1n", s, k>>, 1, 3)
                     IN [pad |-> x] @@ (IF P(<<"cols1", s, k>>, 2) = 0 THEN [cols |-> Slots(<<"slot1", s, k>>, x + Len(ms[k].z))] ELSE << >>)
      three == s % 2 = 0
  IN [kind |-> "calls", three |-> three, other |-> other,
      calls |-> <<b1, b2>> \o [k \in 1..L |-> Call(s, ms, <<k>>, "single", one(k))] \o (IF three THEN <<b3>> ELSE << >>)]
=============================================================================
