------------------------------- MODULE GenC08 -------------------------------
(* Distances exactly at, one grid step below and one grid step above a cutoff, along directions with
   exact lengths; every cutoff separately and together; omitted cutoffs. *)
EXTENDS Families
GNMol(s) == 0
GSize(s, m) == 0
GElem(s, m, k) == 1
GStyle(s, m) == "line"

Types == <<"pair", "triple", "pair", "triple", "eeq", "mixed", "cn", "props", "object", "default2", "default3", "raw", "extreme">>
Type(s) == Types[1 + (s % Len(Types))]
\* directions of integer length
Dirs == <<<<1,0,0>>, <<0,1,0>>, <<0,0,-1>>, <<3,4,0>>, <<0,-3,4>>, <<4,0,3>>, <<1,2,2>>, <<2,-1,2>>, <<-2,2,1>>, <<2,3,6>>, <<6,2,-3>>, <<4,4,7>>, <<1,4,8>>>>
LenOf(v) == LET q == v[1]*v[1] + v[2]*v[2] + v[3]*v[3] IN CHOOSE l \in 1..20 : l * l = q
Off(v, d) == LET l == LenOf(v) IN <<v[1] * (d \div l), v[2] * (d \div l), v[3] * (d \div l)>>   \* d divisible by l
Add(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
Neg(p) == <<-p[1], -p[2], -p[3]>>
Unit(v) == LenOf(v)
Z(s, k) == IF k = 1 THEN SweepZ(s) ELSE AnyZ(<<"z", s, k>>)
Org(s) == <<PR(<<"ox", s>>, -100, 100), PR(<<"oy", s>>, -100, 100), PR(<<"oz", s>>, -100, 100)>>
Delta(s) == (P(<<"dl", s>>, 3) - 1)

(* a pair at distance c + delta: the cutoff is c = d - delta *)
PairMol(s, d) ==
  LET v == PS(<<"dir", s>>, Dirs)
      dd == (d \div Unit(v)) * Unit(v)
  IN [mol |-> [z |-> <<Z(s, 1), Z(s, 2)>>, pos |-> <<Org(s), Add(Org(s), Off(v, dd))>>, den |-> 64], d |-> dd]
(* a triangle with edges 3k 4k 5k (longest edge decides) or a collinear one, optionally a fourth atom *)
TriMol(s, k) ==
  LET o == Org(s)
      shape == P(<<"shape", s>>, 3)
      a == CASE shape = 0 -> <<3 * k, 0, 0>> [] shape = 1 -> <<3 * k, 0, 0>> [] OTHER -> <<0, 3 * k, 0>>
      b == CASE shape = 0 -> <<0, 4 * k, 0>> [] shape = 1 -> <<-2 * k, 0, 0>> [] OTHER -> <<0, 0, -4 * k>>
      ord == P(<<"ord", s>>, 3)    \* which atom comes first
      ps == CASE ord = 0 -> <<o, Add(o, a), Add(o, b)>> [] ord = 1 -> <<Add(o, a), o, Add(o, b)>> [] OTHER -> <<Add(o, b), Add(o, a), o>>
      four == P(<<"four", s>>, 3) = 0
  IN [z |-> IF four THEN <<Z(s, 1), Z(s, 2), Z(s, 3), Z(s, 4)>> ELSE <<Z(s, 1), Z(s, 2), Z(s, 3)>>,
      pos |-> IF four THEN ps \o <<Add(o, <<-k, -k, 2 * k>>)>> ELSE ps, den |-> 64]     \* longest edge 5k
(* bonded atoms with an exact distance: the charge model's counting *)
BondMol(s) ==
  LET v == PS(<<"dir", s>>, SubSeq(Dirs, 1, 9))
      d0 == PR(<<"bd", s>>, 150, 230)
      d == (d0 \div 15) * 15
      o == Org(s)
  IN [mol |-> [z |-> <<Z(s, 1), Z(s, 2), Z(s, 3)>>,
               pos |-> <<o, Add(o, Off(v, d)), Add(Add(o, Off(v, d)), Off(v, 2 * d))>>, den |-> 64], d |-> d]
Qs(s, ms) == [m \in 1..Len(ms) |-> [i \in 1..Len(ms[m].z) |-> PR(<<"q", s, m, i>>, -500, 500)]]
\* every order at the edge, also the tenth
Par(s) == LET p == VariedP(<<"p", s>>)
          IN IF P(<<"p10", s>>, 3) = 0 THEN p @@ [s10 |-> PR(<<"s10v", s>>, 100, 3000)] ELSE p
\* another damping scheme
Other(s) == IF P(<<"os", s>>, 3) > 0 THEN "rational" ELSE PS(<<"osv", s>>, <<"zero", "mzero", "op">>)
OtherP(s) == IF Other(s) = "rational" THEN << >>
             ELSE LET p == RationalP(<<"p", s>>)
                  IN [p |-> p @@ [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300), alp |-> 14336, bet |-> PR(<<"bet", s>>, 10, 300)]]
Base(s, ms, terms) ==
  [api |-> "Disp", mols |-> ms, layout |-> IF Len(ms) > 1 THEN "batch" ELSE "single", dtype |-> "float64",
   chg |-> [m \in 1..Len(ms) |-> 0], p |-> Par(s), terms |-> terms, model |-> PS(<<"md", s>>, <<"d4", "d4", "d4s">>)]
Full == <<Two("rational", TRUE), Atm("atm-approx-bj")>>
Only2 == <<Two("rational", TRUE)>>
Only3(s) == <<Atm(PS(<<"a3", s>>, <<"atm-approx-bj", "atm-exact-bj", "atm-approx-vdw">>))>>
D4(call) == [call EXCEPT !.api = "dftd4"]
CutAs(s) == [cut_as |-> PS(<<"ca", s>>, <<"float", "tensor">>)]

GFinish(s, ms) ==
  LET t == Type(s)
      dl == Delta(s)
      kk == PR(<<"k", s>>, 2, 9)
      pr == PairMol(s, 315 * kk)
      tr == TriMol(s, 40 + 8 * kk)
      edge == 5 * (40 + 8 * kk)
      bm == BondMol(s)
      batch == P(<<"bt", s>>, 3) = 0
      pr2 == PairMol(s + 5000, 315 * kk + 64)
      pms == IF batch THEN <<pr.mol, pr2.mol>> ELSE <<pr.mol>>
      tr2 == TriMol(s + 7000, 44 + 8 * kk)
      tms == IF batch THEN <<tr2, tr>> ELSE <<tr>>
      withq(c) == c @@ [q |-> Qs(s, c.mols)]
  IN CASE t = "pair" ->
            [kind |-> "calls", calls |->
              <<OtherP(s) @@ withq(Base(s, pms, <<Two(Other(s), TRUE)>>)) @@ [cut |-> [disp2 |-> pr.d - dl, disp3 |-> 64]] @@ CutAs(s),
                withq(D4(Base(s, pms, Full))) @@ [cut |-> [disp2 |-> pr.d - dl, cn_eeq |-> 64]] @@ CutAs(s)>>]
       [] t = "triple" ->
            [kind |-> "calls", calls |->
              <<Base(s, tms, Only3(s)) @@ [cut |-> [disp3 |-> edge - dl, disp2 |-> 64]] @@ CutAs(s),
                withq(Base(s, tms, Full)) @@ [cut |-> [disp3 |-> edge - dl]] @@ CutAs(s)>>]
       [] t = "eeq" ->
            [kind |-> "calls", calls |->
              <<D4(Base(s, <<bm.mol>>, Full)) @@ [cut |-> [cn_eeq |-> bm.d - dl]] @@ CutAs(s),
                D4(Base(s, <<bm.mol>>, Full)) @@ [cut |-> [disp2 |-> 2 * bm.d - dl]] @@ CutAs(s),
                D4(Base(s, <<bm.mol>>, Full)) @@ [cut |-> [disp3 |-> 3 * bm.d - dl]] @@ CutAs(s)>>]
       [] t = "mixed" ->
            [kind |-> "calls", calls |->
              <<D4(Base(s, tms, Full)) @@ [cut |-> [disp2 |-> 3 * (40 + 8 * kk) + dl, disp3 |-> edge - dl, cn_eeq |-> PR(<<"ce", s>>, 100, 600)]],
                D4(Base(s, tms, Full)) @@ [cut |-> [disp2 |-> edge - dl]],
                D4(Base(s, tms, Full)) @@ [cut |-> [disp3 |-> 64 * 40]]>>]
       [] t = "cn" ->
            [kind |-> "calls", calls |-> <<withq(D4(Base(s, <<bm.mol>>, Full))) @@ [cut |-> [cn |-> bm.d - dl]]>>]
       [] t = "props" ->
            [kind |-> "calls", calls |->
              <<[api |-> "props", mols |-> <<bm.mol>>, layout |-> "single", dtype |-> "float64", chg |-> <<Charge(<<"tq", s>>)>>,
                 cut |-> [cn_eeq |-> bm.d - dl, disp2 |-> 64, disp3 |-> 64]],
                [api |-> "props", mols |-> <<bm.mol>>, layout |-> "single", dtype |-> "float64", chg |-> <<Charge(<<"tq", s>>)>>,
                 cut |-> [disp2 |-> 64, disp3 |-> 64]]>>]
       [] t = "object" ->
            LET v == P(<<"ov", s>>, 16)
                g(b, k) == IF (v \div b) % 2 = 1 THEN [x \in {k} |-> 64 * PR(<<"oc", s, k>>, 1, 90)] ELSE << >>
            IN [kind |-> "cutoff", as |-> PS(<<"oa", s>>, <<"float", "int", "tensor">>), dtype |-> PS(<<"od", s>>, <<"float64", "float32", "none">>),
                cut |-> g(1, "disp2") @@ g(2, "disp3") @@ g(4, "cn") @@ g(8, "cn_eeq")]
       [] t = "default2" ->
            LET v == PS(<<"dir", s>>, SubSeq(Dirs, 1, 9))
                o == Org(s)
                d == 3840 + Unit(v) * dl
                mol == [z |-> <<Z(s, 1), Z(s, 2)>>, pos |-> <<o, Add(o, Off(v, d))>>, den |-> 64]
                some == IF s % 2 = 0 THEN [cut |-> [disp3 |-> 3000]] ELSE << >>
            IN [kind |-> "calls", calls |-> <<withq(Base(s, <<mol>>, Only2)) @@ some, withq(D4(Base(s, <<mol>>, Full)))>>]
       [] t = "default3" ->
            LET k == 512
                o == Org(s)
                sh == P(<<"sh3", s>>, 2)
                mol == [z |-> <<Z(s, 1), Z(s, 2), Z(s, 3)>>,
                        pos |-> IF sh = 0 THEN <<o, Add(o, <<3 * k, 0, 0>>), Add(o, <<0, 4 * k, 0>>)>>
                                ELSE <<Add(o, <<1000, 0, 0>>), o, Add(o, <<2560 + dl, 0, 0>>)>>, den |-> 64]
                some == IF s % 2 = 0 THEN [cut |-> [disp2 |-> 100]] ELSE << >>
            IN [kind |-> "calls", calls |-> <<Base(s, <<mol>>, Only3(s)) @@ some, withq(D4(Base(s, <<mol>>, Full)))>>]
       [] t = "extreme" ->      \* nothing within a vanishing cutoff, everything within a huge one
            LET c(k) == PS(<<"xc", s, k>>, <<0, 1, 64 * 100000, 6400000 * 64, 1280>>)
                far == PR(<<"xf", s>>, 60, 4000) * 64
                o == Org(s)
                mol == [z |-> <<Z(s, 1), Z(s, 2), Z(s, 3)>>, pos |-> <<o, Add(o, <<PR(<<"xn", s>>, 150, 400), 0, 0>>), Add(o, <<0, far, 0>>)>>, den |-> 64]
            IN [kind |-> "calls", calls |->
                 <<withq(Base(s, <<mol>>, Only2)) @@ [cut |-> [disp2 |-> c(1), disp3 |-> c(2)]] @@ CutAs(s),
                   Base(s, <<mol>>, Only3(s)) @@ [cut |-> [disp2 |-> c(1), disp3 |-> c(2)]] @@ CutAs(s),
                   withq(D4(Base(s, <<mol>>, Full))) @@ [cut |-> [disp2 |-> 64 * (c(1) \div 64), disp3 |-> 64 * (c(2) \div 64)], cut_as |-> "int"]>>]
       [] t = "raw" ->
            LET v == PS(<<"dir", s>>, SubSeq(Dirs, 1, 9))
                o == Org(s)
                d == IF s % 2 = 0 THEN 3840 + Unit(v) * dl ELSE pr.d
                mol == IF s % 2 = 0 THEN [z |-> <<Z(s, 1), Z(s, 2)>>, pos |-> <<o, Add(o, Off(v, d))>>, den |-> 64] ELSE pr.mol
            IN [kind |-> "pair",
                call |-> [mols |-> <<mol>>, layout |-> "single", dtype |-> "float64", damp |-> "rational", p |-> Par(s),
                          c6 |-> << <<<<50000, 90000>>, <<90000, 40000>>>> >>, r4r2 |-> <<<<3000, 4000>>>>, vdw |-> << <<<<4000, 4000>>, <<4000, 4000>>>> >>]
                         @@ (IF s % 2 = 0 THEN << >> ELSE [cut |-> [disp2 |-> d - dl]])]
=============================================================================
