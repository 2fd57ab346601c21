------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Choices shared by the scenario families: elements, sizes, parameter     *)
(* sets, charges.                                                          *)
(***************************************************************************)
EXTENDS Build

\* Every window of 103 consecutive numbers visits every element once.
SweepZ(k) == 1 + ((k * 37) % 103)
Common == <<1, 6, 7, 8, 9, 14, 15, 16, 17, 35, 53, 3, 11, 26, 29, 2>>
AnyZ(key) == IF P(<<key, "c">>, 3) = 0 THEN PS(<<key, "z">>, Common) ELSE PR(<<key, "z">>, 1, 103)

\* damping parameter sets (numerators over 1024)
PlainP(key) ==
  [s6 |-> PS(<<key, "s6">>, <<1024, 1024, 1024, 655, 512>>), s8 |-> PR(<<key, "s8">>, 0, 3072),
   s9 |-> PS(<<key, "s9">>, <<1024, 1024, 1024, 512, 2048>>),
   a1 |-> PR(<<key, "a1">>, 200, 700), a2 |-> PR(<<key, "a2">>, 3072, 7168)]
\* now and then with factors that vanish or change sign
RationalP(key) ==
  LET p == PlainP(key)
  IN CASE P(<<key, "sp">>, 18) = 0 -> [p EXCEPT !.s6 = 0]
       [] P(<<key, "sp">>, 18) = 1 -> [p EXCEPT !.s8 = 0]
       [] P(<<key, "sp">>, 18) = 2 -> [p EXCEPT !.s9 = 0]
       [] P(<<key, "sp">>, 18) = 3 -> [p EXCEPT !.a1 = 0]
       [] P(<<key, "sp">>, 18) = 4 -> [p EXCEPT !.s8 = -700]
       [] P(<<key, "sp">>, 18) = 5 -> [p EXCEPT !.s6 = 0, !.s8 = 0]
       [] P(<<key, "sp">>, 18) = 6 -> [p EXCEPT !.a2 = 0]
       [] P(<<key, "sp">>, 18) = 7 -> [p EXCEPT !.s9 = -512]
       [] OTHER -> p
\* the same with some entries left out (they take their defaults) or an exponent added
VariedP(key) ==
  LET p == RationalP(key)
      v == P(<<key, "v">>, 8)
      drop(k) == [x \in DOMAIN p \ {k} |-> p[x]]
  IN CASE v = 0 -> drop("s6") [] v = 1 -> drop("s9") [] v = 2 -> drop("s8")
       [] v = 3 -> p @@ [alp |-> PS(<<key, "alp">>, <<14336, 16384, 12288>>)]
       [] v = 4 -> p @@ [s10 |-> PR(<<key, "s10">>, 100, 2000)]
       [] OTHER -> p

Two(damp, chg) == [kind |-> "two", damp |-> damp, chg |-> chg]
Atm(kind) == [kind |-> kind, damp |-> "zero", chg |-> FALSE]
TermsOf(api) ==
  CASE api \in {"dftd4", "DispD4", "Disp", "blocks"} -> <<Two("rational", TRUE), Atm("atm-approx-bj")>>
    [] api = "DispD4Exact" -> <<Two("rational", TRUE), Atm("atm-exact-bj")>>
    [] api = "DispD3BJ" -> <<Two("rational", FALSE), Atm("atm-approx-vdw")>>
    [] api = "DispD3Zero" -> <<Two("zero", FALSE), Atm("atm-approx-vdw")>>

\* any one to three terms a user may put together
Pool == <<Two("rational", TRUE), Two("rational", FALSE), Two("zero", FALSE), Two("zero", TRUE), Two("mzero", TRUE), Two("op", FALSE),
          Atm("atm-approx-bj"), Atm("atm-exact-bj"), Atm("atm-approx-vdw"),
          [kind |-> "atm-approx-bj", damp |-> "zero", chg |-> TRUE], [kind |-> "atm-exact-bj", damp |-> "zero", chg |-> TRUE],
          [kind |-> "atm-exact-bj", damp |-> "zero", chg |-> TRUE], [kind |-> "atm-approx-vdw", damp |-> "zero", chg |-> TRUE]>>
AnyTerms(key) == [t \in 1..PR(<<key, "nt">>, 1, 3) |-> PS(<<key, "t", t>>, Pool)]
ChgTerms(ts) == \E t \in 1..Len(ts) : ts[t].chg

\* What users supply follows patterns: nothing at all, one odd atom out, all equal, whole numbers, extremes.
\* Molecule m of a call, atom i of n; the molecules of a batch share a pattern or not.
Pattern(key, m, k) == P(<<key, "pat", IF P(<<key, "same">>, 2) = 0 THEN 0 ELSE m>>, k)
QSoft(key, m, i, n) ==
  CASE Pattern(key, m, 12) = 0 -> 0
    [] Pattern(key, m, 12) = 1 -> IF i = 1 + P(<<key, "one", m>>, n) THEN 512 ELSE 0
    [] Pattern(key, m, 12) = 2 -> PS(<<key, "eq", m>>, <<256, -300, 700>>)
    [] OTHER -> PR(<<key, m, i>>, -600, 600)
QVal(key, m, i, n) ==
  CASE Pattern(key, m, 12) = 3 -> 1024 * PR(<<key, "int", m, i>>, -1, 1)
    [] Pattern(key, m, 12) = 4 -> PR(<<key, "big", m, i>>, -6000, 6000)
    [] OTHER -> QSoft(key, m, i, n)
R4Val(key, m, i) ==
  CASE Pattern(key, m, 8) = 0 -> 4000 [] Pattern(key, m, 8) = 1 -> PR(<<key, m, i>>, 300, 20000) [] OTHER -> PR(<<key, m, i>>, 1500, 9000)
VdWVal(key, m, i, j) ==
  LET ij == IF i < j THEN <<i, j>> ELSE <<j, i>>
  IN CASE Pattern(key, m, 8) = 0 -> 5000 [] Pattern(key, m, 8) = 1 -> PR(<<key, m, ij>>, 1000, 12000) [] OTHER -> PR(<<key, m, ij>>, 3000, 9000)
\* some systems lie far away from the origin (exact in double precision only)
FarOff(key, ms) ==
  IF P(<<key, "far">>, 10) > 0 THEN ms
  ELSE LET sh == [x \in 1..3 |-> 64 * PS(<<key, "fx", x>>, <<0, 150, -300, 1000, -1000>>)]
       IN [m \in 1..Len(ms) |-> [ms[m] EXCEPT !.pos = [i \in 1..Len(ms[m].pos) |-> [x \in 1..3 |-> ms[m].pos[i][x] + sh[x]]]]]
\* atom k of the molecules of a call sits in slot Slots[k] of w
RECURSIVE SlotsOf(_, _, _)
SlotsOf(key, w, used) ==
  IF Len(used) = w THEN used
  ELSE LET rest == {i \in 1..w : \A j \in 1..Len(used) : used[j] # i}
           pick == CHOOSE i \in rest : Cardinality({j \in rest : j < i}) = P(<<key, Len(used)>>, w - Len(used))
       IN SlotsOf(key, w, Append(used, pick))
Slots(key, w) == SlotsOf(key, w, << >>)
Charge(key) == PS(<<key, "chg">>, <<0, 0, 0, 4, -4, 8, -8, 2, -1, 12>>)
\* a batch in two dimensions
Nested(key, L) == IF L > 1 /\ P(<<key, "nested">>, 4) = 0 THEN [layout |-> "batch3", group |-> IF L % 2 = 0 THEN 2 ELSE 1] ELSE << >>
=============================================================================
