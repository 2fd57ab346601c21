------------------------------- MODULE GenC02 -------------------------------
(* Pair energies for given C6, r4r2 and van der Waals radii. *)
EXTENDS Families
Large(s) == s % 100 = 50
Batch(s) == s % 3 = 0 /\ ~Large(s)
GNMol(s) == IF Batch(s) THEN PR(<<"nm", s>>, 2, 4) ELSE 1
GSize(s, m) == IF Large(s) THEN PR(<<"n", s, m>>, 60, 130) ELSE IF s % 25 = 1 THEN PR(<<"n", s, m>>, 12, 24)
               ELSE IF s % 7 = 2 THEN PR(<<"n", s, m>>, 1, 2) ELSE PR(<<"n", s, m>>, 1, 7)
GElem(s, m, k) == SweepZ(3 * s + m + k)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "grid", "loose", "wide", "far", "line", "close">>)
\* single precision where the distances survive it
F32(s) == s % 7 = 3 /\ ~Large(s)
Scheme(s) == PS(<<"sch", s>>, <<"rational", "zero", "mzero", "op">>)
Sym(key, i, j, lo, hi) == IF i < j THEN PR(<<key, i, j>>, lo, hi) ELSE PR(<<key, j, i>>, lo, hi)
S8(s) == PS(<<"s8", s>>, <<1024, 0, 900, 2048, -300>>)
Par(s) ==
  LET sch == Scheme(s)
      base == [s6 |-> PS(<<"s6", s>>, <<1024, 655, 0, 1500>>), s8 |-> S8(s)]
      ab == [a1 |-> PR(<<"a1", s>>, 0, 900), a2 |-> IF P(<<"a20", s>>, 12) = 0 THEN 0 ELSE PR(<<"a2", s>>, 1024, 8000)]
      zz == [rs6 |-> PR(<<"rs6", s>>, 500, 1500), rs8 |-> PR(<<"rs8", s>>, 500, 1500),
             alp |-> PS(<<"alp", s>>, <<14336, 16384, 8192>>)]
      p0 == CASE sch = "rational" -> base @@ ab
              [] sch = "zero" -> base @@ zz
              [] sch = "mzero" -> base @@ zz @@ [bet |-> PR(<<"bet", s>>, 0, 300)]
              [] sch = "op" -> base @@ ab @@ [bet |-> PR(<<"bet", s>>, 0, 4096)]
      p1 == IF sch = "rational" /\ s % 4 < 2 THEN p0 @@ [s10 |-> PS(<<"s10", s>>, <<1024, 0, 400, -200>>)] ELSE p0
      v == P(<<"drop", s>>, 10)
      dr == CASE v = 0 -> {"s6"} [] v = 1 -> {"s8"} [] v = 2 -> {"s6", "s8"} [] v = 3 -> {"alp"} [] OTHER -> {}
      \* parameters of the other schemes and of the three-body terms: without effect on the pair energy
      zr == sch \in {"zero", "mzero"}
      oth == [a1 |-> PR(<<"oa1", s>>, 0, 900), a2 |-> PR(<<"oa2", s>>, 1024, 8000), s9 |-> PR(<<"os9", s>>, 0, 2000), rs9 |-> PR(<<"ors9", s>>, 500, 1500),
              rs6 |-> PR(<<"ors6", s>>, 500, 1500), rs8 |-> PR(<<"ors8", s>>, 500, 1500), alp |-> PR(<<"oalp", s>>, 8192, 18432), bet |-> PR(<<"obet", s>>, 0, 300)]
      on == IF P(<<"oth", s>>, 3) # 0 THEN {} ELSE IF zr THEN {"a1", "a2", "s9", "rs9"} \cup (IF sch = "zero" THEN {"bet"} ELSE {})
            ELSE {"s9", "rs9", "rs6", "alp"} \cup (IF "s8" \in dr THEN {} ELSE {"rs8"}) \cup (IF sch = "rational" THEN {"bet"} ELSE {})
  IN [k \in DOMAIN p1 \ dr |-> p1[k]] @@ [k \in on |-> oth[k]]
GFinish(s, ms) ==
  LET n(m) == Len(ms[m].z)
      zero == P(<<"c0", s>>, 9) = 0
      call == [mols |-> IF F32(s) THEN ms ELSE FarOff(s, ms), layout |-> IF Batch(s) THEN "batch" ELSE "single", dtype |-> IF F32(s) THEN "float32" ELSE "float64",
               damp |-> Scheme(s), p |-> Par(s), p_as |-> PS(<<"pa", s>>, <<"tensor", "float">>),
               c6 |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> [j \in 1..n(m) |->
                        IF zero /\ i # j /\ Sym(<<"z0", s, m>>, i, j, 0, 3) = 0 THEN 0
                        ELSE Sym(<<"c6", s, m>>, i, j, 300, 4000000)]]],
               r4r2 |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> PR(<<"r4", s, m, i>>, 1500, 12000)]],
               vdw |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> [j \in 1..n(m) |-> Sym(<<"vd", s, m>>, i, j, 3000, 9000)]]]]
      c2 == IF s % 2 = 0 THEN call @@ [cut |-> [disp2 |-> PR(<<"cut", s>>, 150, 1600)]] ELSE call
      c3 == IF Batch(s) THEN c2 @@ [pad |-> P(<<"pad", s>>, 3), fill |-> PS(<<"fl", s>>, <<0, 0, 64, 6400>>)] ELSE c2
  IN [kind |-> "pair", call |-> Nested(s, Len(ms)) @@ c3]
=============================================================================
