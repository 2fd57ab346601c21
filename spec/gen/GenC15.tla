------------------------------- MODULE GenC15 -------------------------------
(* The same calculation in both precisions under both global default types; reference weights in
   single precision at coordination numbers far from every reference. *)
EXTENDS Families
Wts(s) == s % 5 = 0
Batch(s) == s % 4 = 1
GNMol(s) == IF Batch(s) THEN 2 ELSE 1
GSize(s, m) == IF Wts(s) THEN PR(<<"n", s, m>>, 1, 5) ELSE IF s % 240 = 37 /\ m = 1 THEN PR(<<"n", s>>, 60, 72) ELSE IF s % 60 = 29 /\ m = 1 THEN PR(<<"n", s>>, 12, 34) ELSE PS(<<"n", s, m>>, <<1, 2, 2, 3, 3, 4, 5, 6>>)
GElem(s, m, k) == IF k = 1 THEN SweepZ(s) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "grid", "loose", "loose", "wide">>)
Api(s) == PS(<<"api", s>>, <<"dftd4", "dftd4", "dftd4", "DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero", "blocks", "props", "props", "Disp", "Disp">>)
MyTerms(s) == IF Api(s) = "Disp" THEN AnyTerms(<<"own", s>>) ELSE TermsOf(Api(s))
\* values that single precision cannot represent
FineP(s) ==
  LET p == [s6 |-> PS(<<"s6", s>>, <<1000, 1000, 640>>), s8 |-> PR(<<"s8", s>>, 1, 3000), s9 |-> PS(<<"s9", s>>, <<1000, 1000, 700>>),
            a1 |-> PR(<<"a1", s>>, 200, 700), a2 |-> PR(<<"a2", s>>, 3000, 7000),
            rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300), bet |-> PR(<<"bet", s>>, 10, 300)]
      v == P(<<"pv", s>>, 6)
      drop(k) == [x \in DOMAIN p \ {k} |-> p[x]]
  IN CASE v = 0 -> drop("s9") [] v = 1 -> drop("s6") [] v = 2 -> p @@ [alp |-> 15300] [] v = 3 /\ Api(s) \notin {"DispD3Zero", "Disp"} -> p @@ [s10 |-> PR(<<"s10", s>>, 10, 900)] [] OTHER -> p
UsesQ(s) == Api(s) # "props" /\ ChgTerms(MyTerms(s))
Light(ms) == \A m \in 1..Len(ms) : \A i \in 1..Len(ms[m].z) : ms[m].z[i] <= 86
Calls4(s, ms) ==
  LET md == PS(<<"md", s>>, <<"d4", "d4", "d4s">>)
      n(m) == Len(ms[m].z)
      fine == [m \in 1..Len(ms) |-> [ms[m] EXCEPT !.den = PS(<<"dn", s>>, <<60, 64, 70>>)]]
      base == [api |-> Api(s), mols |-> fine, layout |-> IF Batch(s) THEN "batch" ELSE "single",
               chg |-> [m \in 1..Len(ms) |-> Charge(<<"tq", s, m>>)], want |-> <<"grad">>]
             @@ (IF P(<<"cd", s>>, 2) = 0 THEN [cden |-> PS(<<"cdv", s>>, <<3, 5, 7>>)] ELSE << >>)
      en == IF Api(s) = "props" THEN << >>
            ELSE [model |-> md, p |-> FineP(s), pden |-> 1000, terms |-> MyTerms(s)]
                 @@ (IF P(<<"pa", s>>, 3) = 0 THEN [p_as |-> "float"] ELSE << >>)
                 @@ (IF Api(s) = "dftd4" /\ P(<<"ma", s>>, 3) = 0
                     THEN [model_as |-> "inst", oden |-> 1000, opt |-> [ga |-> PR(<<"ga", s>>, 2700, 3300), gc |-> PR(<<"gc", s>>, 1700, 2300)]
                                   @@ (IF md = "d4" THEN [wf |-> PR(<<"wf", s>>, 5500, 6500)] ELSE << >>)]
                     ELSE << >>)
                 @@ (IF Api(s) \notin {"dftd4", "blocks"} /\ P(<<"mk", s>>, 3) = 0
                     THEN [oden |-> 1000, opt |-> (IF Light(ms) THEN [refq |-> "gfn2"] ELSE << >>)
                                   @@ [ga |-> PR(<<"ga", s>>, 2700, 3300)]
                                   @@ (IF md = "d4s" /\ P(<<"wk", s>>, 2) = 0 THEN [wfk |-> PR(<<"wkv", s>>, 1, 9)] ELSE << >>)
                                   @@ (IF P(<<"rk", s>>, 3) = 0 THEN [rc6 |-> PR(<<"rkv", s>>, 1, 9)] ELSE << >>)]
                     ELSE << >>)
                 @@ (IF UsesQ(s) /\ P(<<"gq", s>>, 3) = 0 THEN [qden |-> 1000, q |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> QVal(<<"q", s>>, m, i, n(m))]]] ELSE << >>)
      form == (IF ~Batch(s) /\ P(<<"ca", s>>, 3) = 0 THEN [chg_as |-> "float"] ELSE << >>)
              @@ (IF P(<<"zi", s>>, 5) = 0 THEN [zint |-> "int32"] ELSE << >>)
              @@ (IF P(<<"cu", s>>, 4) = 0 THEN [cut |-> [disp2 |-> 64 * PR(<<"c2", s>>, 3, 40)], cut_as |-> PS(<<"cua", s>>, <<"float", "int", "tensor">>)] ELSE << >>)
      c(dt, df) == base @@ en @@ form @@ [dtype |-> dt, default |-> df]
  IN <<c("float64", "float64"), c("float64", "float32"), c("float32", "float32"), c("float32", "float64")>>
CN(key) == IF P(<<key, "v">>, 3) = 0 THEN PS(key, <<10000, 11000, 12288, 9000, 14000, 8000, 20480>>) ELSE PR(key, 0, 9000)
GFinish(s, ms) ==
  LET n(m) == Len(ms[m].z)
      w == [mols |-> ms, layout |-> IF Batch(s) THEN "batch" ELSE "single", dtype |-> PS(<<"wdt", s>>, <<"float32", "float32", "float64">>), model |-> PS(<<"md", s>>, <<"d4", "d4s">>),
            oden |-> 1000, opt |-> (IF Light(ms) /\ P(<<"wr", s>>, 2) = 0 THEN [refq |-> "gfn2"] ELSE << >>)
                                   @@ (IF P(<<"wg", s>>, 3) = 0 THEN [ga |-> PR(<<"ga", s>>, 2700, 3300)] ELSE << >>),
            cn |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> CN(<<"cn", s, m, i>>)]],
            q |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> PR(<<"q", s, m, i>>, -600, 900)]]]
  IN IF Wts(s) THEN [kind |-> "weights", also |-> TRUE, call |-> w] ELSE [kind |-> "calls", calls |-> Calls4(s, ms)]
=============================================================================
