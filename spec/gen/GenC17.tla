------------------------------- MODULE GenC17 -------------------------------
(* calls: 1 plain, 2 with some quantities supplied, 3 the same with covalent radii in addition,
   4 plain with some defaults spelled out *)
EXTENDS Families
Batch(s) == s % 4 = 1
GNMol(s) == IF Batch(s) THEN PR(<<"nm", s>>, 1, 3) ELSE 1
GSize(s, m) == IF s % 240 = 37 /\ m = 1 THEN PR(<<"n", s>>, 60, 72) ELSE IF s % 60 = 29 /\ m = 1 THEN PR(<<"n", s>>, 12, 34) ELSE PS(<<"n", s, m>>, <<1, 2, 2, 3, 3, 4, 4, 5>>)
Gfn2(s) == P(<<"rq", s>>, 8) = 0
GElem(s, m, k) == IF Gfn2(s) THEN PR(<<"z", s, m, k>>, 1, 86) ELSE IF k = 1 THEN SweepZ(s) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "grid", "loose", "loose", "wide">>)
Api(s) == PS(<<"api", s>>, <<"dftd4", "dftd4", "dftd4", "DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero", "Disp">>)
UsesQ(s) == Api(s) \notin {"DispD3BJ", "DispD3Zero"}
Model(s) == PS(<<"md", s>>, <<"d4", "d4", "d4s">>)
Has1(s, k, n) == P(<<"has", k, s>>, n) = 0
One1(c, k, v) == IF c THEN [x \in {k} |-> v] ELSE << >>
ZP(s) == [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300), bet |-> PR(<<"bet", s>>, 10, 300)]
DampOf(s) == IF Api(s) \in {"dftd4", "Disp"} /\ Has1(s, "damp", 3) THEN PS(<<"damp", s>>, <<"zero", "mzero", "op", "plain", "soft">>) ELSE "rational"
\* a hand-assembled container may hold any three-body term, with the user's damping function and charges
Three(s) == [kind |-> PS(<<"tk", s>>, <<"atm-approx-bj", "atm-exact-bj", "atm-approx-vdw">>), damp |-> PS(<<"td", s>>, <<"zero", "zero", "soft", "plain">>),
             chg |-> Has1(s, "tc", 3)]
Terms(s, dm) == IF Api(s) = "dftd4" THEN <<Two(dm, TRUE), Atm("atm-approx-bj")>>
                ELSE IF Api(s) = "Disp" THEN <<Two(dm, TRUE)>> \o (IF Has1(s, "t3", 6) THEN << >> ELSE <<Three(s)>>) \o (IF Has1(s, "tf", 4) THEN <<[kind |-> "flat", damp |-> "zero", chg |-> Has1(s, "tg", 2)]>> ELSE << >>)
                ELSE TermsOf(Api(s))
Opts(s) ==
  LET o == One1(Gfn2(s), "refq", "gfn2") @@ One1(Has1(s, "ga", 2), "ga", PS(<<"gav", s>>, <<2048, 2500, 4096, 0>>))
           @@ One1(Has1(s, "gc", 2), "gc", PS(<<"gcv", s>>, <<1024, 1500, 3000, 0>>))
           @@ One1(Model(s) = "d4" /\ Has1(s, "wf", 2), "wf", PS(<<"wfv", s>>, <<4096, 5000, 8192, 0>>))
           @@ One1(Model(s) = "d4" /\ Has1(s, "wft", 2), "wf_as", "tensor")
           @@ One1(Model(s) = "d4s" /\ Has1(s, "wfk", 2), "wfk", PR(<<"wfkv", s>>, 1, 9))
           @@ One1(Has1(s, "rc6", 3), "rc6", PR(<<"rc6v", s>>, 1, 11))
  IN o
WantOpt(s) == Gfn2(s) \/ Has1(s, "opt", 4)
Explicits == <<"r4r2", "vdw", "rcov", "q", "cut", "model", "cnf", "cnt", "damp", "opt", "none">>
GFinish(s, ms) ==
  LET n(m) == Len(ms[m].z)
      L == Len(ms)
      inst == P(<<"inst", s>>, 3) = 0
      base == [api |-> Api(s), mols |-> FarOff(s, ms), layout |-> IF Batch(s) THEN "batch" ELSE "single", dtype |-> "float64",
               chg |-> [m \in 1..L |-> Charge(<<"tq", s, m>>)], p |-> ZP(s) @@ RationalP(<<"p", s>>)]
      plain == base @@ [terms |-> Terms(s, "rational")]
      over ==
        One1(UsesQ(s) /\ Has1(s, "q", 3), "q", [m \in 1..L |-> [i \in 1..n(m) |-> QVal(<<"q", s>>, m, i, n(m))]])
        @@ One1(Has1(s, "r4r2", 3), "r4r2", [m \in 1..L |-> [i \in 1..n(m) |-> R4Val(<<"r4", s>>, m, i)]])
        @@ One1(Has1(s, "vdw", 3), "vdw", [m \in 1..L |-> [i \in 1..n(m) |-> [j \in 1..n(m) |->
                 VdWVal(<<"vd", s>>, m, i, j)]]])
        @@ (IF Has1(s, "cut", 3) THEN [cut |-> One1(Has1(s, "c2", 2), "disp2", 64 * PR(<<"c2", s>>, 2, 30))
                                               @@ One1(Has1(s, "c3", 2), "disp3", 64 * PR(<<"c3", s>>, 2, 30))
                                               @@ One1(Has1(s, "ce", 2), "cn_eeq", 64 * PR(<<"ce", s>>, 2, 30))
                                               @@ [cn |-> 1920],
                                       cut_as |-> PS(<<"cua", s>>, <<"float", "int", "tensor">>)] ELSE << >>)
        @@ One1(Has1(s, "cnf", 3), "cnf", PS(<<"cnfv", s>>, <<"d4exp", "d3", "zero", "const", "d4pow", "d4">>))
        @@ [cnf_as |-> PS(<<"cnfa", s>>, <<"both", "fn", "kwargs">>)]
        @@ One1(DampOf(s) # "rational" /\ Api(s) = "dftd4", "damp", DampOf(s))
        @@ One1(Has1(s, "model", 2) \/ WantOpt(s), "model", Model(s))
        @@ One1(inst \/ (WantOpt(s) /\ Api(s) = "dftd4"), "model_as", "inst")
        @@ One1(WantOpt(s), "opt", Opts(s))
      full == base @@ over @@ [terms |-> Terms(s, DampOf(s))]
      rc == [rcov |-> [m \in 1..L |-> [i \in 1..n(m) |-> PR(<<"rc", s, m, i>>, 500, 3000)]]]
      ex == SelectSeq(Explicits, LAMBDA k : (k # "q" \/ UsesQ(s)) /\ P(<<"ex", s, k>>, 2) = 0)
      spelled == [explicit |-> ex] @@ plain @@ One1(P(<<"ei", s>>, 3) = 0, "model_as", "inst")
  IN [kind |-> "calls", calls |-> <<plain, full, full @@ rc, spelled>>]
=============================================================================
