------------------------------- MODULE Energy -------------------------------
(***************************************************************************)
(* Damping functions, the two-body and the three-body energy and the total *)
(* D4/D4S energy.  A damping parameter set is a record whose fields are a  *)
(* subset of {a1,a2,s6,rs6,s8,rs8,s9,rs9,s10,alp,bet}.                     *)
(***************************************************************************)
EXTENDS RefModel, FiniteSets

Has(p, k) == k \in DOMAIN p
Get(p, k, dflt) == IF Has(p, k) THEN R(0) ++ p[k] ELSE dflt

DefA1 == R("0.4")
DefA2 == R("5.0")
DefALP == R("16.0")

(*------------------------------ damping ---------------------------------*)
\* t_n(r) = f_damp / r^n for the four schemes.  R0 is the pair radius: 3 r4r2 r4r2 ("qq") for
\* rational and optimised power, the pairwise van der Waals radius for the zero schemes.
BJRadius(qq, p) == (p.a1 ** RSqrt(qq)) ++ p.a2
ZeroAlp(n, p) == IF n = 8 THEN Get(p, "alp", DefALP) ++ 2 ELSE Get(p, "alp", DefALP)
ZeroRS(n, p) == CASE n = 6 -> p.rs6 [] n = 8 -> p.rs8 [] n = 9 -> Get(p, "rs9", One)

DampRational(r, qq, n, p) == 1 // ((r ^^ n) ++ (BJRadius(qq, p) ^^ n))
DampZero(r, r0, n, p) == 1 // ((1 ++ (6 ** (((ZeroRS(n, p) ** r0) // r) ^^ ZeroAlp(n, p)))) ** (r ^^ n))
DampMZero(r, r0, n, p) ==
  LET t == (r // (ZeroRS(n, p) ** r0)) ++ (p.bet ** r0)
  IN 1 // ((1 ++ (6 ** (t ^^ RNeg(ZeroAlp(n, p))))) ** (r ^^ n))
DampOP(r, qq, n, p) ==
  LET r0 == BJRadius(qq, p)
      rb == r ^^ p.bet
  IN rb // ((rb ** (r ^^ n)) ++ ((r0 ^^ p.bet) ** (r0 ^^ n)))

Schemes == {"rational", "zero", "mzero", "op"}
UsesVdW(scheme) == scheme \in {"zero", "mzero"}

\* parameters a scheme needs for an order (alp has a default)
Needs(scheme, n) ==
  CASE scheme = "rational" -> {"a1", "a2"}
    [] scheme = "zero"  -> IF n = 6 THEN {"rs6"} ELSE IF n = 8 THEN {"rs8"} ELSE {}
    [] scheme = "mzero" -> IF n = 6 THEN {"rs6", "bet"} ELSE {"rs8", "bet"}
    [] scheme = "op"    -> {"a1", "a2", "bet"}
    [] scheme \in {"plain", "soft"} -> {}
Orders(scheme) ==
  CASE scheme = "rational" -> {6, 8, 10} [] scheme = "zero" -> {6, 8, 9} [] OTHER -> {6, 8}

\* an order whose scale factor is not given is switched off
SwitchedOff(n, p) == \/ n = 8 /\ ~Has(p, "s8") /\ ~Has(p, "rs8")
                     \/ n = 10 /\ ~Has(p, "s10")

DampDefined(scheme, n, p) ==
  SwitchedOff(n, p) \/ (n \in Orders(scheme) /\ Needs(scheme, n) \subseteq DOMAIN p)

Damp(scheme, r, r0, n, p) ==
  IF SwitchedOff(n, p) THEN Zero
  ELSE CASE scheme = "rational" -> DampRational(r, r0, n, p)
         [] scheme = "zero"  -> DampZero(r, r0, n, p)
         [] scheme = "mzero" -> DampMZero(r, r0, n, p)
         [] scheme = "op"    -> DampOP(r, r0, n, p)
         [] scheme = "plain" -> 1 // ((r ^^ n) ++ 1)       \* users' damping functions
         [] scheme = "soft"  -> 1 // ((r ^^ n) ++ (r0 ^^ 2))

(*----------------------------- two-body ---------------------------------*)
QQ(r4r2, i, j) == 3 ** r4r2[i] ** r4r2[j]

\* contribution of the pair (i,j), counted once
PairEnergy(r, c6, qq, r0, scheme, p) ==
  LET rad == IF UsesVdW(scheme) THEN r0 ELSE qq
      e6 == Get(p, "s6", One) ** c6 ** Damp(scheme, r, rad, 6, p)
      e8 == Get(p, "s8", One) ** c6 ** qq ** Damp(scheme, r, rad, 8, p)
      e10 == IF Has(p, "s10")
             THEN p.s10 ** c6 ** (qq ^^ 2) ** (R(49) // 40) ** Damp(scheme, r, rad, 10, p)
             ELSE Zero
  IN RNeg(e6 ++ e8 ++ e10)

\* matrix of pair contributions: zero on the diagonal and beyond the cutoff
PairMatrix(n, d, c6, r4r2, vdw, scheme, p, cut2) ==
  LET half == Force([i \in 1..n |-> Force([j \in 1..i |->
        IF i = j \/ ~RLeq(d[i][j], cut2) THEN Zero
        ELSE PairEnergy(d[i][j], c6[i][j], QQ(r4r2, i, j), vdw[i][j], scheme, p)])])
  IN Mat(n, n, LAMBDA i, j : IF j <= i THEN half[i][j] ELSE half[j][i])

\* the general form, for a C6 matrix and radii that need not be symmetric: row i collects C6[i][j]
PairMatrixGen(n, d, c6, r4r2, vdw, scheme, p, cut2) ==
  Mat(n, n, LAMBDA i, j :
     IF i = j \/ ~RLeq(d[i][j], cut2) THEN Zero
     ELSE PairEnergy(d[i][j], c6[i][j], QQ(r4r2, i, j), vdw[i][j], scheme, p))

TwoBody(n, d, c6, r4r2, vdw, scheme, p, cut2) ==
  LET m == PairMatrix(n, d, c6, r4r2, vdw, scheme, p, cut2)
  IN Vec(n, LAMBDA i : Half ** RSum(m[i]))

(*---------------------------- three-body --------------------------------*)
Triples(n) == {t \in (1..n) \X (1..n) \X (1..n) : t[1] < t[2] /\ t[2] < t[3]}

\* the damping factor of a triangle: zero damping, or a user's damping function
AtmFactor(scheme, prod, rad, alp) ==
  CASE scheme = "zero" -> 1 // (1 ++ (6 ** ((rad // prod) ^^ (alp // 3))))
    [] scheme = "plain" -> 1 // ((prod ^^ 9) ++ 1)
    [] scheme = "soft" -> 1 // (1 ++ ((rad // prod) ^^ (alp // 12)))

\* C9 (3 cos cos cos + 1) / (r r r)^3 * f_damp  for one triangle with squared edges
TripleEnergy(dab, dac, dbc, rab, rac, rbc, c9, s9, alp, scheme) ==
  LET ab == dab ^^ 2
      ac == dac ^^ 2
      bc == dbc ^^ 2
      prod == dab ** dac ** dbc
      ang == ((R("0.375") ** ((ab ++ bc) -- ac) ** ((ab -- bc) ++ ac) ** ((bc -- ab) ++ ac)) // (prod ^^ 5))
             ++ (1 // (prod ^^ 3))
      f == AtmFactor(scheme, prod, rab ** rac ** rbc, alp)
  IN s9 ** c9 ** ang ** f

InRange3(d, i, j, k, cut3) == RLeq(d[i][j], cut3) /\ RLeq(d[i][k], cut3) /\ RLeq(d[j][k], cut3)

\* energies of all triangles as nested sequences e[i][j][k] for i > j > k
TripleTable(n, d, c9(_, _, _), rad, cut3, s9, alp, scheme) ==
  Force([i \in 1..n |-> Force([j \in 1..(i - 1) |-> Force([k \in 1..(j - 1) |->
     IF ~InRange3(d, i, j, k, cut3) THEN Zero
     ELSE TripleEnergy(d[i][j], d[i][k], d[j][k], rad[i][j], rad[i][k], rad[j][k], c9(i, j, k), s9, alp, scheme)])])])

Sort3(i, j, k) ==  \* the three indices in descending order
  LET hi == IF i >= j /\ i >= k THEN i ELSE IF j >= k THEN j ELSE k
      lo == IF i <= j /\ i <= k THEN i ELSE IF j <= k THEN j ELSE k
  IN <<hi, (i + j + k) - hi - lo, lo>>

\* each atom receives a third of every triangle it belongs to
ThreeBody(n, d, c9(_, _, _), rad, cut3, s9, alp, scheme) ==
  LET e == TripleTable(n, d, c9, rad, cut3, s9, alp, scheme)
      of(i) == RSum([j \in 1..n |-> RSum([k \in 1..n |->
                 IF j < k /\ j # i /\ k # i THEN LET s == Sort3(i, j, k) IN e[s[1]][s[2]][s[3]] ELSE Zero])])
  IN Vec(n, LAMBDA i : of(i) // 3)

BJRadii(n, r4r2, p) ==
  Mat(n, n, LAMBDA i, j : (Get(p, "a1", DefA1) ** RSqrt(QQ(r4r2, i, j))) ++ Get(p, "a2", DefA2))
VdWRadii(n, vdw, p) == Mat(n, n, LAMBDA i, j : Get(p, "rs9", One) ** vdw[i][j])

C9Approx(c6, i, j, k) == RSqrt(RAbs(c6[i][j] ** c6[i][k] ** c6[j][k]))
C9Exact(pols, i, j, k) ==
  ThreeOverPi ** RSum([f \in 1..NFreq |-> Quad[f] ** pols[i][f] ** pols[j][f] ** pols[k][f]])

(*------------------------------- terms ----------------------------------*)
\* The inputs every term sees.  ctx = [sys, d, cn, q, opt, p, r4r2, vdw, cut2, cut3]
\* term = [kind |-> "two" | "atm-approx-bj" | "atm-exact-bj" | "atm-approx-vdw" | "flat" (a user's own),
\*         damp |-> scheme, chg |-> BOOLEAN]
TermEnergy(term, ctx) ==
  LET n == N(ctx.sys)
      q == IF term.chg THEN ctx.q ELSE NoCharges(ctx.sys)
      s9 == Get(ctx.p, "s9", One)
      alp == Get(ctx.p, "alp", DefALP)
      rad == IF term.kind = "atm-approx-vdw" THEN VdWRadii(n, ctx.vdw, ctx.p) ELSE BJRadii(n, ctx.r4r2, ctx.p)
  IN CASE term.kind = "two" ->
            LET c6 == C6Matrix(ctx.sys, ctx.cn, q, ctx.opt)
            IN TwoBody(n, ctx.d, c6, ctx.r4r2, ctx.vdw, term.damp, ctx.p, ctx.cut2)
       [] term.kind \in {"atm-approx-bj", "atm-approx-vdw"} ->
            LET c6 == C6Matrix(ctx.sys, ctx.cn, q, ctx.opt)
                c9(i, j, k) == C9Approx(c6, i, j, k)
            IN ThreeBody(n, ctx.d, c9, rad, ctx.cut3, s9, alp, term.damp)
       [] term.kind = "atm-exact-bj" ->
            LET pol == AtomPols(ctx.sys, ctx.cn, q, ctx.opt)
                c9(i, j, k) == C9Exact(pol, i, j, k)
            IN ThreeBody(n, ctx.d, c9, rad, ctx.cut3, s9, alp, term.damp)
       [] term.kind = "flat" -> Vec(n, LAMBDA i : R("-0.001") ** (1 ++ ctx.r4r2[i] ++ q[i]))

TwoTerm(scheme, chg) == [kind |-> "two", damp |-> scheme, chg |-> chg]
AtmTerm(kind) == [kind |-> kind, damp |-> "zero", chg |-> FALSE]
D4Terms      == <<TwoTerm("rational", TRUE), AtmTerm("atm-approx-bj")>>
D4ExactTerms == <<TwoTerm("rational", TRUE), AtmTerm("atm-exact-bj")>>
D3BJTerms    == <<TwoTerm("rational", FALSE), AtmTerm("atm-approx-vdw")>>
D3ZeroTerms  == <<TwoTerm("zero", FALSE), AtmTerm("atm-approx-vdw")>>

TermsEnergy(terms, ctx) ==
  LET n == N(ctx.sys)
      e == Force([t \in 1..Len(terms) |-> TermEnergy(terms[t], ctx)])
  IN Vec(n, LAMBDA i : RSum([t \in 1..Len(terms) |-> e[t][i]]))

DefaultR4R2(sys) == Vec(N(sys), LAMBDA i : R4R2[sys.z[i]])
DefaultVdW(sys)  == Mat(N(sys), N(sys), LAMBDA i, j : VdW[sys.z[i]][sys.z[j]])
DefCut == [disp2 |-> R(60), disp3 |-> R(40), cn |-> R(30), cn_eeq |-> R(25)]
=============================================================================
