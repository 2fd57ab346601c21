------------------------------ MODULE RefModel ------------------------------
(***************************************************************************)
(* The reference-system model: Gaussian weights in the coordination        *)
(* number, charge scaling, reference polarizabilities, C6 and C9.          *)
(*                                                                         *)
(* opt = [model |-> "d4" | "d4s" | "d4sdebug", ga, gc |-> reals,           *)
(*        wf |-> real or "default", refq |-> "eeq" | "gfn2",               *)
(*        wfk, rc6 |-> 0 or a key: weighting factors per pair of atoms and *)
(*        reference C6 coefficients supplied by the user]                  *)
(***************************************************************************)
EXTENDS Chem, Naturals

GA == R(3)
GC == R(2)
WF == R(6)
DefaultOpt == [model |-> "d4", ga |-> GA, gc |-> GC, wf |-> "default", refq |-> "eeq", wfk |-> 0, rc6 |-> 0]

\* exp(ga (1 - exp(gam (1 - qref/qmod)))) and its limit exp(ga) for qmod <= 0
Zeta(ga, gam, qref, qmod) ==
  IF RLeq(qmod, 0) THEN RExp(ga)
  ELSE RExp(ga ** (1 -- RExp(gam ** (1 -- (qref // qmod)))))

Gauss(z, r, cn, wf) ==
  LET x == wf ** ((cn -- RefCN[z][r]) ^^ 2)
  IN RSum([i \in 1..RefC[z][r] |-> RExp(RNeg(i ** x))])

Active(z) == {r \in 1..NRef : RefC[z][r] > 0}
MaxCN(z) == RMaxOf(RefCN[z])

\* normalised Gaussian weights of the references of element z
GaussWeights(z, cn, wf) ==
  LET g    == Vec(NRef, LAMBDA r : IF RefC[z][r] > 0 THEN Gauss(z, r, cn, wf) ELSE Zero)
      norm == RSum(g)
  IN IF RLt(norm, R("1e-300"))
     THEN Vec(NRef, LAMBDA r : IF RefC[z][r] > 0 /\ REq(RefCN[z][r], MaxCN(z)) THEN One ELSE Zero)
     ELSE Vec(NRef, LAMBDA r : g[r] // norm)

\* the underflow fallback is entered somewhere in this band; nothing is claimed inside it
NearUnderflow(z, cn, wf) ==
  LET norm == RSum([r \in 1..NRef |-> IF RefC[z][r] > 0 THEN Gauss(z, r, RD0(cn), RD0(wf)) ELSE Zero])
  IN RLt(norm, R("1e-290")) /\ ~REq(norm, 0)

ZetaRef(z, r, q, opt) ==
  Zeta(opt.ga, opt.gc ** Gam[z], RefQ(opt.refq)[z][r] ++ Zeff[z], q ++ Zeff[z])

Weights(z, cn, q, wf, opt) ==
  LET g == GaussWeights(z, cn, wf)
  IN Vec(NRef, LAMBDA r : IF RefC[z][r] > 0 THEN g[r] ** ZetaRef(z, r, q, opt) ELSE Zero)

\* the weighting factor seen by an atom of element z next to one of element y
PairWf(z, y, opt) ==
  IF opt.wf # "default" THEN opt.wf
  ELSE IF opt.model = "d4s" THEN WfPair[z][y] ELSE WF
\* ... and by atom i next to atom j (user-supplied factors need not be symmetric)
UserWf(k, i, j) == R(5) ++ (R((k + (3 * i) + (5 * j)) % 9) // 4)
AtomWf(sys, i, j, opt) == IF opt.wfk # 0 THEN UserWf(opt.wfk, i, j) ELSE PairWf(sys.z[i], sys.z[j], opt)
UserC6(k, i, j, a, b) == R(1 + ((k + (3 * (i + j)) + (a * b)) % 11))
Pairwise(opt) == opt.model \in {"d4s", "d4sdebug"}

\* reference polarizability of reference r of element z at frequency w
AlphaOf(z, r, w, ga, gc, refq) ==
  LET s    == RefSys[z][r]
      zeta == IF s = 0 THEN Zero
              ELSE Zeta(ga, gc ** Gam[s], Zeff[s], RefH(refq)[z][r] ++ Zeff[s])
      sec  == IF s = 0 THEN Zero ELSE Tab.secscale[s] ** Tab.secalpha[s][w] ** zeta
      a    == Tab.refascale[z][r] ** (Tab.refalpha[z][r][w] -- (Tab.refscount[z][r] ** sec))
  IN IF RLt(0, a) THEN a ELSE Zero

AlphaZ(z, ga, gc, refq) == Mat(NRef, NFreq, LAMBDA r, w : AlphaOf(z, r, w, ga, gc, refq))
AlphaEEQ  == Force([z \in 1..MaxZ |-> AlphaZ(z, GA, GC, "eeq")])
AlphaGFN2 == Force([z \in 1..MaxZgfn |-> AlphaZ(z, GA, GC, "gfn2")])
Alpha(z, opt) ==
  IF REq(opt.ga, 3) /\ REq(opt.gc, 2)
  THEN IF opt.refq = "eeq" THEN AlphaEEQ[z] ELSE AlphaGFN2[z]
  ELSE AlphaZ(z, opt.ga, opt.gc, opt.refq)

\* dynamic polarizability of element z with reference weights w
WeightedPol(z, w, opt) ==
  LET a == Alpha(z, opt)
      act == Active(z)
  IN Vec(NFreq, LAMBDA f : RSum([r \in 1..NRef |-> IF r \in act THEN w[r] ** a[r][f] ELSE Zero]))

CasimirPolder(p1, p2) == ThreeOverPi ** RDot3(Quad, p1, p2)

\* The polarizabilities that enter C6(i,j): pol[i][j] is atom i's as seen next to j.
\* In the standard model it does not depend on j.
PolTable(sys, cn, q, opt) ==
  LET n == N(sys) IN
  IF Pairwise(opt)
  THEN Mat(n, n, LAMBDA i, j :
         WeightedPol(sys.z[i], Weights(sys.z[i], cn[i], q[i], AtomWf(sys, i, j, opt), opt), opt))
  ELSE Vec(n, LAMBDA i :
         LET p == WeightedPol(sys.z[i], Weights(sys.z[i], cn[i], q[i], AtomWf(sys, i, i, opt), opt), opt)
         IN Vec(n, LAMBDA j : p))

\* C6 from reference coefficients supplied by the user
UserPairC6(sys, w, i, j, k) ==
  RSum([a \in 1..NRef |-> w[i][j][a] ** RSum([b \in 1..NRef |-> UserC6(k, i, j, a, b) ** w[j][i][b]])])

C6Matrix(sys, cn, q, opt) ==
  LET n == N(sys)
      own == opt.rc6 # 0
      w == IF own THEN Mat(n, n, LAMBDA i, j : Weights(sys.z[i], cn[i], q[i], AtomWf(sys, i, j, opt), opt)) ELSE << >>
      p == IF own THEN << >> ELSE PolTable(sys, cn, q, opt)
      half == Force([i \in 1..n |-> Force([j \in 1..i |->
                IF own THEN UserPairC6(sys, w, i, j, opt.rc6) ELSE CasimirPolder(p[i][j], p[j][i])])])
  IN Mat(n, n, LAMBDA i, j : IF j <= i THEN half[i][j] ELSE half[j][i])

\* atomic dynamic polarizabilities (mean over the partners in the pairwise model)
AtomPols(sys, cn, q, opt) ==
  LET n == N(sys)
      p == PolTable(sys, cn, q, opt)
  IN Mat(n, NFreq, LAMBDA i, f : IF Pairwise(opt) THEN RSum([j \in 1..n |-> p[i][j][f]]) // n ELSE p[i][1][f])

NoCharges(sys) == Vec(N(sys), LAMBDA i : Zero)
=============================================================================
