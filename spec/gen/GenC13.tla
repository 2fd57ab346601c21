------------------------------- MODULE GenC13 -------------------------------
(* Sessions: a good call, a malformed one, the good call again, another malformed one, the good call. *)
EXTENDS Families
Sizes == <<1, 2, 2, 3, 3, 4, 5>>
Batch(s) == s % 3 = 1
GNMol(s) == IF Batch(s) THEN PR(<<"nm", s>>, 1, 3) ELSE 1
GSize(s, m) == IF s % 60 = 29 /\ m = 1 THEN PR(<<"n", s>>, 12, 34) ELSE PS(<<"n", s, m>>, Sizes)
GElem(s, m, k) == IF k = 1 THEN SweepZ(s) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "grid", "loose">>)
Apis == <<"dftd4", "dftd4", "DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero", "zero", "mzero", "op">>
Api(s) == PS(<<"api", s>>, Apis)
IsDamp(s) == Api(s) \in {"zero", "mzero", "op"}
UsesQ(s) == Api(s) \notin {"DispD3BJ", "DispD3Zero"}
Scheme(s) == IF IsDamp(s) THEN Api(s) ELSE IF Api(s) = "DispD3Zero" THEN "zero" ELSE "rational"
ZP(s) == [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300), bet |-> PR(<<"bet", s>>, 10, 300)]
Params(s) == (IF Scheme(s) = "rational" THEN << >> ELSE ZP(s)) @@ RationalP(<<"p", s>>)
More(s, L, n) == (IF Batch(s) THEN <<"norow", "lead", "rows">> ELSE <<"lead">>) \o (IF Batch(s) /\ L > 1 THEN <<"row", "row">> ELSE << >>)
                 \o (IF n > 1 THEN <<"one", "one">> ELSE << >>)
Deform(w) == IF w = "rvdw" THEN <<"short", "long", "colshort", "collong", "col1", "vector", "batched">>
             ELSE IF w = "positions" THEN <<"short", "long", "batched", "flat">> ELSE <<"short", "long", "batched", "scalar">>
Bogus == <<"d6", "d5", "dftd4", "", " d4", "d4 ", "d4ss", "gfn2", "d">>
BogusQ == <<"foo", "", "EEQ", "gfn", "eeqs", "gfn1", "mulliken">>
\* parameters that may be left out so that the request is incomplete
Leave(s, k) ==
  LET sm == Scheme(s)
      v == CASE sm = "rational" -> <<<<"a1">>, <<"a2">>, <<"a1", "a2">>>>
             [] sm = "zero" -> <<<<"rs6">>, <<"rs8">>, <<"rs6", "rs8">>>>
             [] sm = "mzero" -> <<<<"rs6">>, <<"rs8">>, <<"bet">>, <<"rs6", "bet">>>>
             [] sm = "op" -> <<<<"a1">>, <<"a2">>, <<"bet">>, <<"a1", "a2", "bet">>>>
  IN PS(<<"lv", s, k>>, v)
Fault(s, k, L, n) ==
  LET qs == IF UsesQ(s) THEN <<"q", "q">> ELSE <<"noterm", "noterm">>
      kinds == <<"positions", "r4r2", "rcov", "rvdw", "model", "refq", "param", "param", "novdw", "radius">> \o qs \o (IF Scheme(s) # "rational" THEN <<"order", "order">> ELSE << >>)
      w == kinds[1 + ((s * 5 + k + P(<<"fk", s, k>>, 3)) % Len(kinds))]
  IN [what |-> w,
      how |-> CASE w \in {"positions", "q", "r4r2", "rcov", "rvdw"} -> PS(<<"how", s, k>>, Deform(w) \o More(s, L, n))
                [] w = "model" -> PS(<<"bm", s, k>>, Bogus) [] w = "refq" -> PS(<<"bq", s, k>>, BogusQ)
                [] w = "param" -> Leave(s, k) [] w = "novdw" -> PS(<<"nv", s, k>>, <<"zero", "mzero", "zero", "rational">>) [] OTHER -> "x"]
MaxSize(ms) == CHOOSE x \in {Len(ms[m].z) : m \in 1..Len(ms)} : \A m \in 1..Len(ms) : Len(ms[m].z) <= x
Without(p, ks) == [x \in {y \in DOMAIN p : \A i \in 1..Len(ks) : ks[i] # y} |-> p[x]]
GFinish(s, ms) ==
  LET n(m) == Len(ms[m].z)
      api == IF IsDamp(s) THEN "dftd4" ELSE Api(s)
      base == [api |-> api, mols |-> ms, layout |-> IF Batch(s) THEN "batch" ELSE "single", dtype |-> "float64",
               chg |-> [m \in 1..Len(ms) |-> Charge(<<"tq", s, m>>)],
               terms |-> IF IsDamp(s) THEN <<Two(Api(s), TRUE), Atm("atm-approx-bj")>> ELSE TermsOf(api),
               model |-> PS(<<"md", s>>, <<"d4", "d4", "d4s">>)]
              @@ (IF IsDamp(s) THEN [damp |-> Api(s)] ELSE << >>)
              \* a user's coordination numbers do not look at the positions
              @@ (IF P(<<"cnf", s>>, 4) = 0 THEN [cnf |-> PS(<<"cnfv", s>>, <<"zero", "const", "d3">>)] ELSE << >>)
      \* unusual but consistent ways to write the same thing
      form == (IF P(<<"zi", s>>, 4) = 0 THEN [zint |-> "int32"] ELSE << >>)
              @@ (IF P(<<"pa", s>>, 3) = 0 THEN [p_as |-> "float"] ELSE << >>)
              @@ (IF ~Batch(s) /\ P(<<"ca", s>>, 3) = 0 THEN [chg_as |-> "float"] ELSE << >>)
              @@ (IF P(<<"cu", s>>, 3) = 0 THEN [cut |-> [disp2 |-> 64 * PR(<<"c2", s>>, 3, 40)], cut_as |-> PS(<<"cua", s>>, <<"float", "int", "tensor">>)] ELSE << >>)
      over == (IF UsesQ(s) /\ P(<<"gq", s>>, 2) = 0 THEN [q |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> QVal(<<"q", s>>, m, i, n(m))]]] ELSE << >>)
              @@ (IF P(<<"gr", s>>, 3) = 0 THEN [r4r2 |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> R4Val(<<"r4", s>>, m, i)]]] ELSE << >>)
              @@ (IF P(<<"gc", s>>, 3) = 0 THEN [rcov |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> PR(<<"rc", s, m, i>>, 500, 3000)]]] ELSE << >>)
      good == base @@ form @@ over @@ [p |-> Params(s)]
      bad(k) ==
        LET f == Fault(s, k, Len(ms), MaxSize(ms))
            p == IF f.what = "param" THEN Without(Params(s), f.how) ELSE IF f.what = "order" THEN [s10 |-> 512] @@ Params(s) ELSE Params(s)
            q0 == [q |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> 10]]]
            r0(k1) == [x \in {k1} |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> 3000]]]
            v0 == [vdw |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> [j \in 1..n(m) |-> 6000]]]]
            add == CASE f.what \in {"q", "noterm"} -> q0 [] f.what \in {"r4r2", "rcov"} -> r0(f.what) [] f.what = "rvdw" -> v0 [] OTHER -> << >>
        IN [fault |-> f] @@ base @@ form @@ add @@ [p |-> p]
  IN [kind |-> "session", calls |-> <<good, bad(1), good, bad(2), bad(3), good>>]
=============================================================================
