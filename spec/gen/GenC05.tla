------------------------------- MODULE GenC05 -------------------------------
(* C6 coefficients and polarizabilities for arbitrary reference weights, and the property function. *)
EXTENDS Families
Kind(s) == IF s <= 2 THEN "all" ELSE IF s % 7 = 3 THEN "quad" ELSE IF s % 3 = 0 THEN "props" ELSE "c6"
Batch(s) == s > 2 /\ s % 5 = 0
Model(s) == IF Kind(s) = "all" THEN "d4" ELSE PS(<<"md", s>>, <<"d4", "d4", "d4s">>)
Refq(s) == IF s = 2 \/ (s > 2 /\ P(<<"rq", s>>, 4) = 0) THEN "gfn2" ELSE "eeq"
ZMax(s) == IF Refq(s) = "gfn2" /\ Kind(s) # "props" THEN 86 ELSE 103
GNMol(s) == IF Kind(s) = "quad" THEN 0 ELSE IF Batch(s) THEN PR(<<"nm", s>>, 2, 3) ELSE 1
GSize(s, m) == IF Kind(s) = "all" THEN ZMax(s) ELSE IF s % 7 = 1 THEN 1 ELSE PR(<<"n", s, m>>, 2, 8)
GElem(s, m, k) == IF Kind(s) = "all" THEN k
                  ELSE IF k = 1 THEN 1 + ((s * 37) % ZMax(s)) ELSE PR(<<"z", s, m, k>>, 1, ZMax(s))
GStyle(s, m) == IF Kind(s) = "props" THEN PS(<<"st", s, m>>, <<"tight", "grid", "loose", "wide">>) ELSE "sweep"
Opts(s) ==
  LET o(c, k, v) == IF c THEN [x \in {k} |-> v] ELSE << >>
  IN o(Refq(s) = "gfn2", "refq", Refq(s))
     @@ o(P(<<"ga", s>>, 5) = 0, "ga", PS(<<"gav", s>>, <<2048, 4096>>))
     @@ o(P(<<"gc", s>>, 5) = 0, "gc", PS(<<"gcv", s>>, <<1024, 3000>>))
Full(key) == PR(key, 300, 3000)
W(key) == PS(key, <<0, 0, 1024, 512, 100, 2000, PR(<<key, "x">>, 0, 6000)>>)
Pol(key) == [w \in 1..23 |-> PS(<<key, "v", w>>, <<0, PR(<<key, w>>, 1, 900), PR(<<key, w>>, 1, 90000)>>)]
GFinish(s, ms) ==
  LET n(m) == Len(ms[m].z)
      pw == Model(s) = "d4s"
      base == Nested(s, Len(ms)) @@ [mols |-> ms, layout |-> IF Batch(s) THEN "batch" ELSE "single", dtype |-> IF s > 2 /\ s % 8 = 5 THEN "float32" ELSE "float64"]
      pad == IF Batch(s) THEN [pad |-> P(<<"pad", s>>, 3)] ELSE << >>
      gw == [m \in 1..Len(ms) |->
              IF pw THEN [j \in 1..n(m) |-> [i \in 1..n(m) |-> [r \in 1..7 |-> W(<<"w", s, m, i, j, r>>)]]]
              ELSE [i \in 1..n(m) |-> [r \in 1..7 |-> IF Kind(s) = "all" THEN Full(<<"w", s, m, i, r>>) ELSE W(<<"w", s, m, i, r>>)]]]
      cut == IF P(<<"cut", s>>, 3) = 0 THEN [cut |-> [cn_eeq |-> PR(<<"cv", s>>, 150, 900)]] ELSE << >>
      chg == IF P(<<"nochg", s>>, 6) = 0 THEN << >>
             ELSE [chg |-> [m \in 1..Len(ms) |-> Charge(<<"tq", s, m>>)]]
      \* the quadrature itself, on arbitrary polarizabilities of one or two kinds of atoms
      form == PS(<<"form", s>>, <<"ref", "noref", "noref", "atm">>)
      na == PR(<<"na", s>>, 1, 4)
      nb == PS(<<"nb", s>>, <<0, na, na, PR(<<"nbv", s>>, 1, 4)>>)
      nr == PR(<<"nr", s>>, 1, 7)
      quad == [kind |-> "quad", form |-> form, dtype |-> PS(<<"qdt", s>>, <<"float64", "float64", "float32">>), lead |-> P(<<"ld", s>>, 3),
               a |-> IF form = "atm" THEN [i \in 1..na |-> [j \in 1..2 |-> [k \in 1..3 |-> Pol(<<"pa", s, i, j, k>>)]]]
                     ELSE IF form = "ref" THEN [i \in 1..na |-> [r \in 1..nr |-> Pol(<<"pa", s, i, r>>)]] ELSE [i \in 1..na |-> Pol(<<"pa", s, i>>)]]
              @@ (IF form = "atm" \/ nb = 0 THEN << >>
                  ELSE [b |-> IF form = "ref" THEN [i \in 1..nb |-> [r \in 1..nr |-> Pol(<<"pb", s, i, r>>)]] ELSE [i \in 1..nb |-> Pol(<<"pb", s, i>>)]])
  IN IF Kind(s) = "quad" THEN quad ELSE IF Kind(s) = "props" THEN [kind |-> "calls", calls |-> <<base @@ pad @@ cut @@ chg @@ [api |-> "props"]>>]
     ELSE [kind |-> "c6", call |-> base @@ pad @@ [model |-> Model(s), opt |-> Opts(s), gw |-> gw]]
=============================================================================
