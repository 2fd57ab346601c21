------------------------------- MODULE GenC16 -------------------------------
(* One request to a damping object: scheme, order, parameters (given, left out, or passed as None),
   distances and radii. *)
EXTENDS Families
GNMol(s) == 0
GSize(s, m) == 1
GElem(s, m, k) == 1
GStyle(s, m) == "line"
Scheme(s) == <<"rational", "zero", "mzero", "op">>[1 + (s % 4)]
Order(s) == PS(<<"n", s>>, IF P(<<"odd", s>>, 6) = 0 THEN <<7, 10, 12, 9>> ELSE
             CASE Scheme(s) = "rational" -> <<6, 8, 9, 10>> [] Scheme(s) = "zero" -> <<6, 8, 9>> [] OTHER -> <<6, 8>>)
Ints(s) == P(<<"int", s>>, 5) = 0
V(s, k) == LET r == CASE k = "a1" -> <<100, 900>> [] k = "a2" -> <<1024, 8192>> [] k \in {"rs6", "rs8", "rs9"} -> <<500, 1800>>
                        [] k = "alp" -> <<8192, 18432>> [] k = "bet" -> IF Scheme(s) = "op" THEN <<0, 12288>> ELSE <<0, 400>> [] OTHER -> <<-1024, 3072>>
           IN IF Ints(s) THEN 1024 * PR(<<"v", s, k>>, 1, 4) ELSE IF P(<<"nul", s, k>>, 12) = 0 /\ (k \in {"s6", "s8", "s9", "s10", "bet"} \/ (Scheme(s) = "zero" /\ k \in {"rs6", "rs8"}) \/ (Scheme(s) = "rational" /\ k = "a1")) THEN 0 ELSE PR(<<"v", s, k>>, r[1], r[2])
Names == {"a1", "a2", "s6", "rs6", "s8", "rs8", "s9", "rs9", "s10", "alp", "bet"}
Needed(s) == CASE Scheme(s) = "rational" -> {"a1", "a2"} [] Scheme(s) = "zero" -> {"rs6", "rs8"}
               [] Scheme(s) = "mzero" -> {"rs6", "rs8", "bet"} [] Scheme(s) = "op" -> {"a1", "a2", "bet"}
\* left out: seldom if needed
\* sometimes everything that scales the requested order is missing
Off(s, k) == /\ P(<<"off", s>>, 10) = 0
             /\ k \in (CASE Order(s) = 6 -> {"s6", "rs6"} [] Order(s) = 8 -> {"s8", "rs8"} [] Order(s) = 9 -> {"s9", "rs9"} [] OTHER -> {"s10"})
State(s, k) == LET r == P(<<"gv", s, k>>, 20)
               IN IF Off(s, k) THEN IF k \in {"s6", "s9", "rs9"} \/ P(<<"offn", s, k>>, 2) = 0 THEN "none" ELSE "absent" ELSE IF k \in Needed(s) THEN IF r = 0 THEN "absent" ELSE IF r = 1 THEN "none" ELSE "given"
                  ELSE IF r < 10 THEN "given" ELSE IF r < 17 THEN "absent" ELSE "none"
Given(s) == {k \in Names : State(s, k) = "given"}
Nones(s) == {k \in Names : State(s, k) = "none"}
DType(s) == PS(<<"dt", s>>, <<"float64", "float64", "float64", "float32">>)
\* r^(order + bet) must stay representable
Dist(s, i) == LET v == P(<<"dv", s, i>>, 6)
              IN CASE v = 0 -> PR(<<"d", s, i>>, 4, 60) [] v = 1 /\ ~(DType(s) = "float32" /\ Scheme(s) = "op") -> PR(<<"d", s, i>>, 2000, 6400) [] OTHER -> PR(<<"d", s, i>>, 60, 1000)
Rad(s, i) == IF Scheme(s) # "mzero" /\ P(<<"r0", s, i>>, 40) = 0 THEN 0 ELSE IF Scheme(s) \in {"zero", "mzero"} THEN PR(<<"r", s, i>>, 150, 600) ELSE PR(<<"r", s, i>>, 300, 8000)
NPts == 12
Request(key, sch) ==
  LET ks == {k \in Names : P(<<key, "g", k>>, 3) > 0 \/ (sch \in {"rational", "op"} /\ k \in {"a1", "a2"}) \/ k \in {"rs6", "bet"} \/ (k = "s10" /\ P(<<key, "t">>, 2) = 0)}
  IN [order |-> PS(<<key, "n">>, <<6, 8, 9, 10, 6, 8>>), only |-> P(<<key, "o">>, 4) = 0, p |-> [k \in ks |-> PR(<<key, "v", k>>, 200, 3000)],
      nones |-> {k \in Names \ ks : P(<<key, "none", k>>, 4) = 0}, shift |-> P(<<key, "sh">>, 200)]
GFinish(s, ms) ==
  [kind |-> "damp", scheme |-> Scheme(s), order |-> Order(s), only |-> P(<<"only", s>>, 4) = 0,
   p |-> [k \in Given(s) |-> V(s, k)], nones |-> Nones(s), p_as |-> IF Ints(s) THEN "int" ELSE PS(<<"pa", s>>, <<"float", "tensor">>),
   shape |-> PS(<<"sh", s>>, <<"vector", "matrix", "batch">>), dtype |-> DType(s),
   \* what the same object was asked before
   before |-> [b \in 1..P(<<"nb", s>>, 4) |-> Request(<<"b", s, b>>, Scheme(s))],
   dist |-> [i \in 1..NPts |-> Dist(s, i)], rad |-> [i \in 1..NPts |-> Rad(s, i)]]
=============================================================================
