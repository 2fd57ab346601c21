------------------------------- MODULE GenC10 -------------------------------
(* Edge inputs: single atoms, padding with arbitrary coordinates, far and close atoms, zero-valued
   parameters, empty ranges, extreme charges and coordination numbers. *)
EXTENDS Families
GNMol(s) == 0
GSize(s, m) == 0
GElem(s, m, k) == 1
GStyle(s, m) == "line"
Types == <<"atom", "far", "close", "zerop", "atom", "cut", "charge", "cluster", "coincide", "weights", "farq", "line">>
Type(s) == Types[1 + (s % Len(Types))]
Apis == <<"dftd4", "DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero", "zero", "mzero", "op", "Disp">>
Api(s) == PS(<<"api", s>>, Apis)
IsDamp(s) == Api(s) \in {"zero", "mzero", "op"}
MyTerms(s) == IF Api(s) = "Disp" THEN AnyTerms(<<"own", s>>) ELSE TermsOf(Api(s))
UsesQ(s) == IsDamp(s) \/ ChgTerms(MyTerms(s))
FullP(s) ==
  LET zp == [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300), alp |-> 14336, bet |-> PR(<<"bet", s>>, 10, 300)]
  IN IF Api(s) \in {"DispD3Zero", "zero", "mzero", "op", "Disp"} THEN zp @@ RationalP(<<"p", s>>) ELSE VariedP(<<"p", s>>)
\* which parameters may be zero in the scheme's formula
Zeroable(s) == <<"s6", "s8", "s9", "s6", "s8">> \o
  (CASE Api(s) \in {"dftd4", "DispD4", "DispD4Exact", "DispD3BJ"} -> <<"a1", "a2", "a1a2", "all">> [] Api(s) = "mzero" -> <<"bet">> [] Api(s) = "zero" -> <<"rs6", "rs8">> [] OTHER -> <<"s9">>)
Zero1(p, k) == IF k \in DOMAIN p THEN [p EXCEPT ![k] = 0] ELSE p
ZeroP(s) ==
  LET p == FullP(s)
      k == PS(<<"zk", s>>, Zeroable(s))
  IN IF k = "a1a2" THEN Zero1(Zero1(p, "a1"), "a2")
     ELSE IF k = "all" THEN Zero1(Zero1(Zero1(p, "s6"), "s8"), "s9")
     ELSE Zero1(p, k)
Call(s, ms, p, dtype) ==
  LET api == IF IsDamp(s) THEN "dftd4" ELSE Api(s)
      base == [api |-> api, mols |-> ms, layout |-> IF Len(ms) > 1 THEN "batch" ELSE "single", dtype |-> dtype,
               chg |-> [m \in 1..Len(ms) |-> Charge(<<"tq", s, m>>)], p |-> p,
               terms |-> IF IsDamp(s) THEN <<Two(Api(s), TRUE), Atm("atm-approx-bj")>> ELSE MyTerms(s),
               model |-> PS(<<"md", s>>, <<"d4", "d4", "d4s">>)]
  IN base @@ (IF IsDamp(s) THEN [damp |-> Api(s)] ELSE << >>)
Org(s, m) == [x \in 1..3 |-> PR(<<"o", s, m, x>>, -200, 200)]
Add(p, q) == [x \in 1..3 |-> p[x] + q[x]]
Z(s, m, k) == IF k = 1 /\ m = 1 THEN SweepZ(s \div 2) ELSE AnyZ(<<"z", s, m, k>>)
One1(s, m) == [z |-> <<Z(s, m, 1)>>, pos |-> <<Org(s, m)>>, den |-> 64]
\* a bonded molecule of n atoms on a helix
Helix == <<<<0,0,0>>, <<160,20,0>>, <<150,180,40>>, <<-20,170,60>>, <<0,20,210>>, <<170,30,220>>>>
Small(s, m, n) == [z |-> [k \in 1..n |-> Z(s, m, k)], pos |-> [k \in 1..n |-> Add(Org(s, m), Helix[k])], den |-> 64]
Given(s, ms, lo, hi) == IF UsesQ(s) THEN [q |-> [m \in 1..Len(ms) |-> [i \in 1..Len(ms[m].z) |-> PR(<<"q", s, m, i>>, lo, hi)]]] ELSE << >>
Dt(s) == PS(<<"dt", s>>, <<"float64", "float64", "float32">>)
Far == <<3904, 6400, 25600, 64000, 640000, 6400000, 60000000>>
FarMol(s) ==
  LET d == PS(<<"fd", s>>, Far)
      o == Org(s, 1)
      \* (in single precision no two atoms are close together far from the origin: their distance is not resolved)
      n == IF Dt(s) = "float32" THEN PR(<<"fn", s>>, 2, 4) ELSE PR(<<"fn", s>>, 2, 5)
      at(k) == CASE k = 1 -> o [] k = 2 -> Add(o, <<d, 0, 0>>) [] k = 3 -> Add(o, <<0, -d, 0>>) [] k = 4 -> Add(o, <<100, 60, 100>>)
                 [] OTHER -> Add(o, <<d, 130, 40>>)
  IN [z |-> [k \in 1..n |-> Z(s, 1, k)], pos |-> [k \in 1..n |-> at(k)], den |-> 64]
NearMol(s) ==
  LET d == PS(<<"cd", s>>, <<16, 24, 32, 48, 64, 90>>)
      o == Org(s, 1)
      n == PR(<<"cnn", s>>, 2, 4)
      at(k) == CASE k = 1 -> o [] k = 2 -> Add(o, <<d, 0, 0>>) [] k = 3 -> Add(o, <<0, -d, 0>>) [] OTHER -> Add(o, <<2 * d, d, 100>>)
  IN [z |-> [k \in 1..n |-> Z(s, 1, k)], pos |-> [k \in 1..n |-> at(k)], den |-> 64]
\* many neighbours around one atom
ClusterMol(s) ==
  LET sp == PR(<<"cs", s>>, 100, 170)
      n == PR(<<"cln", s>>, 9, 20)
      at(k) == <<sp * ((k - 1) % 3), sp * (((k - 1) \div 3) % 3), sp * ((k - 1) \div 9)>>
  IN [z |-> [k \in 1..n |-> Z(s, 1, k)], pos |-> [k \in 1..n |-> at(k)], den |-> 64]
LineMol(s) == [z |-> [k \in 1..3 |-> Z(s, 1, k)], pos |-> [k \in 1..3 |-> Add(Org(s, 1), <<180 * k, 0, 0>>)], den |-> 64]
GFinish(s, x) ==
  LET t == Type(s)
      dt == Dt(s)
      p == FullP(s)
      padded(ms) == Call(s, ms, p, dt) @@ [pad |-> PR(<<"pad", s>>, 0, 3), fill |-> PS(<<"fl", s>>, <<0, 64, -6400, 64000>>)]
      e(c) == [kind |-> "edge", type |-> t, call |-> c]
  IN CASE t = "atom" -> e(IF s % 3 = 0 THEN padded(<<One1(s, 1), Small(s, 2, PR(<<"sn", s>>, 1, 4)), One1(s, 3)>>) ELSE Call(s, <<One1(s, 1)>>, p, dt))
       [] t = "far" -> e(Call(s, <<FarMol(s)>>, p, dt))
       [] t = "farq" -> e(Call(s, <<FarMol(s), Small(s, 2, 4)>>, p, dt) @@ Given(s, <<FarMol(s), Small(s, 2, 4)>>, -500, 500))
       [] t = "close" -> e(Call(s, <<NearMol(s)>>, p, "float64") @@ Given(s, <<NearMol(s)>>, -500, 500))
       [] t = "zerop" -> LET ms == IF s % 2 = 0 THEN <<Small(s, 1, 4)>> ELSE <<Small(s, 1, 3), Small(s, 2, 5), One1(s, 3)>>
                         IN e(Call(s, ms, ZeroP(s), dt))
       [] t = "cut" -> LET c == PS(<<"cc", s>>, <<0, 1, 32, 100>>)
                       IN e(Call(s, <<Small(s, 1, 4)>>, p, dt) @@ [cut |-> [disp2 |-> c, disp3 |-> c, cn_eeq |-> c]])
       [] t = "charge" -> LET ms == <<Small(s, 1, 4), Small(s, 2, 2)>>
                              b == PS(<<"qb", s>>, <<1024, 4096, 10240, 61440, 1024000>>)
                          IN e(Call(s, ms, p, "float64")
                               @@ (IF UsesQ(s) THEN [q |-> [m \in 1..2 |-> [i \in 1..Len(ms[m].z) |-> PS(<<"qv", s, m, i>>, <<-b, b, 0, -PR(<<"qz", s, m, i>>, 0, 110) * 1024>>)]]] ELSE << >>))
       [] t = "cluster" -> e(Call(s, <<ClusterMol(s)>>, p, "float64") @@ Given(s, <<ClusterMol(s)>>, -500, 500))
       [] t = "coincide" ->
            LET f == PR(<<"cf", s>>, 60, 300)
                m1 == [z |-> <<Z(s, 1, 1), Z(s, 1, 2)>>, pos |-> <<<<f, f, f>>, <<f + 170, f, f>>>>, den |-> 64]
            IN e(Call(s, <<m1, Small(s, 2, 4)>>, p, dt) @@ [pad |-> 2, fill |-> f])
       [] t = "line" -> e(Call(s, <<LineMol(s)>>, p, dt))
       [] t = "weights" ->
            [kind |-> "wgrad", type |-> t,
             call |-> [mols |-> <<[z |-> [k \in 1..12 |-> IF k < 7 THEN SweepZ(s \div 12) ELSE AnyZ(<<"z", s, k>>)], pos |-> [k \in 1..12 |-> <<100 * k, 0, 0>>], den |-> 64]>>,
                       layout |-> "single", dtype |-> PS(<<"wd", s>>, <<"float64", "float64", "float32">>), model |-> PS(<<"md", s>>, <<"d4", "d4", "d4s">>),
                       cn |-> << [k \in 1..12 |-> PS(<<"wc", s, k>>, <<0, 512, 4096, 12288, 16384, 24576, 40960, 102400, 1024000>>)] >>,
                       q |-> << [k \in 1..12 |-> PS(<<"wq", s, k>>, <<0, 1024, -1024, -8192, -40960, -61440, 102400, -PR(<<"wz", s, k>>, 0, 100) * 1024>>)] >>]]
=============================================================================
