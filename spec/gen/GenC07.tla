------------------------------- MODULE GenC07 -------------------------------
(* A molecule, its translated, rotated and reflected images, and relabelled copies. *)
EXTENDS Families
GNMol(s) == 1
GSize(s, m) == IF s % 240 = 163 THEN PR(<<"n", s>>, 64, 80) ELSE IF s % 80 = 43 THEN PR(<<"n", s>>, 24, 40) ELSE IF s % 20 = 3 THEN PR(<<"n", s>>, 9, 14) ELSE PR(<<"n", s>>, 2, 7)
GElem(s, m, k) == IF s % 3 = 0 /\ k > 1 /\ P(<<"rep", s, k>>, 2) = 0 THEN SweepZ(2 * s + 1)
                  ELSE IF k <= 2 THEN SweepZ(2 * s + k) ELSE AnyZ(<<"z", s, k>>)
GStyle(s, m) == PS(<<"st", s>>, <<"tight", "tight", "grid", "loose", "wide", "line">>)
Api(s) == IF s % 80 = 43 \/ s % 240 = 163 THEN "dftd4" ELSE PS(<<"api", s>>, <<"dftd4", "dftd4", "dftd4", "DispD4Exact", "DispD3BJ", "DispD3Zero", "props", "Disp">>)
MyTerms(s) == IF Api(s) = "Disp" THEN AnyTerms(<<"own", s>>) ELSE TermsOf(Api(s))
DampOf(s) == IF Api(s) = "dftd4" THEN PS(<<"dmp", s>>, <<"rational", "rational", "zero", "mzero", "op">>) ELSE "rational"
RECURSIVE Perm(_, _, _)
Perm(key, left, acc) ==
  IF Len(left) = 0 THEN acc
  ELSE LET i == 1 + P(<<key, Len(left)>>, Len(left))
       IN Perm(key, SubSeq(left, 1, i - 1) \o SubSeq(left, i + 1, Len(left)), Append(acc, left[i]))
\* rational rotation from an integer quaternion: columns over a*a+b*b+c*c+d*d
Rot(a, b, c, d) ==
  << <<a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c)>>,
     <<2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b)>>,
     <<2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d>> >>
Quats == <<<<1,0,0,0>>, <<1,1,0,0>>, <<0,1,0,0>>, <<1,1,1,1>>, <<2,1,0,0>>, <<1,2,3,1>>, <<3,1,0,2>>, <<2,0,1,1>>, <<1,0,4,1>>, <<3,2,1,1>>>>
Move(mol, qt, sgn, sh) ==
  LET M == Rot(qt[1], qt[2], qt[3], qt[4])
      dn == qt[1]*qt[1] + qt[2]*qt[2] + qt[3]*qt[3] + qt[4]*qt[4]
  IN [z |-> mol.z, den |-> mol.den * dn,
      pos |-> [k \in 1..Len(mol.z) |-> [i \in 1..3 |->
         sgn * (M[i][1] * mol.pos[k][1] + M[i][2] * mol.pos[k][2] + M[i][3] * mol.pos[k][3]) + dn * sh[i]]]]
Mirror(mol, ax) == [mol EXCEPT !.pos = [k \in 1..Len(mol.z) |-> [mol.pos[k] EXCEPT ![ax] = -mol.pos[k][ax]]]]
Relabel(mol, pm) == [z |-> [k \in 1..Len(mol.z) |-> mol.z[pm[k]]], pos |-> [k \in 1..Len(mol.z) |-> mol.pos[pm[k]]], den |-> mol.den]
GFinish(s, ms) ==
  LET mol == ms[1]
      n == Len(mol.z)
      api == Api(s)
      pm == Perm(<<"pm", s>>, [k \in 1..n |-> k], << >>)
      idp == [k \in 1..n |-> k]
      zp == [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300), bet |-> PR(<<"bet", s>>, 10, 300)]
      gv == api # "props" /\ P(<<"gv", s>>, 4) = 0
      sym(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
      gq == api # "props" /\ ChgTerms(MyTerms(s)) /\ P(<<"gq", s>>, 3) = 0
      gr == api # "props" /\ P(<<"gr", s>>, 4) = 0
      cut == IF P(<<"cut", s>>, 3) = 0 /\ api # "props"
             THEN [cut |-> [disp2 |-> PR(<<"c2", s>>, 150, 3000), disp3 |-> PR(<<"c3", s>>, 150, 2000)]] ELSE << >>
      \* calls on one molecule or on several images of it at once; pp says where the atoms went
      CallOn(mls, pps, lay) ==
        [api |-> api, mols |-> mls, layout |-> lay, dtype |-> "float64", chg |-> [m \in 1..Len(mls) |-> Charge(<<"tq", s>>)],
         p |-> IF api \in {"DispD3Zero", "Disp"} \/ DampOf(s) # "rational" THEN zp @@ RationalP(<<"p", s>>) ELSE VariedP(<<"p", s>>),
         terms |-> IF api = "props" THEN << >> ELSE IF DampOf(s) # "rational" THEN <<Two(DampOf(s), TRUE), Atm("atm-approx-bj")>> ELSE MyTerms(s),
         model |-> IF api = "props" THEN "d4" ELSE PS(<<"md", s>>, <<"d4", "d4s">>)]
        @@ (IF gq THEN [q |-> [m \in 1..Len(mls) |-> [i \in 1..n |-> QVal(<<"q", s>>, 1, pps[m][i], n)]]] ELSE << >>)
        @@ (IF gr THEN [r4r2 |-> [m \in 1..Len(mls) |-> [i \in 1..n |-> R4Val(<<"r4", s>>, 1, pps[m][i])]]] ELSE << >>)
        @@ (IF gv THEN [vdw |-> [m \in 1..Len(mls) |-> [i \in 1..n |-> [j \in 1..n |-> VdWVal(<<"vd", s>>, 1, pps[m][i], pps[m][j])]]]] ELSE << >>)
        @@ (IF DampOf(s) # "rational" THEN [damp |-> DampOf(s)] ELSE << >>) @@ cut
      Call(ml, pp) == CallOn(<<ml>>, <<pp>>, "single")
      wide(k) == IF k > 1 THEN 4000 ELSE PS(<<"shw", s>>, <<4000, 4000, 64 * 500>>)
      sh(k) == <<PR(<<"sx", s, k>>, -wide(k), wide(k)), PR(<<"sy", s, k>>, -wide(k), wide(k)), PR(<<"sz", s, k>>, -wide(k), wide(k))>>
      qt == PS(<<"qt", s>>, Quats)
      \* the translation may take one of the atoms exactly to the origin
      at0 == mol.pos[1 + P(<<"at0", s>>, n)]
      t1 == IF P(<<"to0", s>>, 2) = 0 THEN <<-at0[1], -at0[2], -at0[3]>> ELSE sh(1)
      images == <<mol, Move(mol, <<1, 0, 0, 0>>, 1, t1), Move(mol, qt, 1, sh(2)),
                  IF s % 2 = 0 THEN Mirror(mol, 1 + (s % 3)) ELSE Move(mol, qt, -1, <<0, 0, 0>>), Relabel(mol, pm)>>
      perms == <<idp, idp, idp, idp, pm>>
  IN [kind |-> "calls", perm |-> pm,
      calls |-> [k \in 1..5 |-> Call(images[k], perms[k])] \o <<CallOn(images, perms, "batch")>>]
=============================================================================
