-------------------------------- MODULE Chem --------------------------------
(***************************************************************************)
(* Geometry, coordination numbers and electronegativity-equilibration      *)
(* charges.  A system is a record [z, pos]: atomic numbers and Cartesian   *)
(* positions (sequences of the same length, positions of three reals).     *)
(***************************************************************************)
EXTENDS Tables

N(sys) == Len(sys.z)

Dist2(p, q) == (p[1] -- q[1]) ^^ 2 ++ (p[2] -- q[2]) ^^ 2 ++ (p[3] -- q[3]) ^^ 2
\* matrix of distances; the diagonal is not used
Distances(sys) ==
  Mat(N(sys), N(sys), LAMBDA i, j : IF i = j THEN Zero ELSE RSqrt(Dist2(sys.pos[i], sys.pos[j])))

ErfCount(r, r0, k) == Half ** (1 ++ RErf(RNeg(k) ** ((r // r0) -- 1)))
ExpCount(r, r0, k) == 1 // (1 ++ RExp(RNeg(k) ** ((r0 // r) -- 1)))

Count(kind, r, r0) ==
  CASE kind = "erf" -> ErfCount(r, r0, R("7.5"))
    [] kind = "exp" -> ExpCount(r, r0, R("16.0"))
    [] kind = "pow" -> (r0 ^^ 6) // ((r0 ^^ 6) ++ (r ^^ 6))   \* a user's counting function

K4 == R("4.10451")
K5 == R("19.08857")
K6 == 2 ** (R("11.28174") ^^ 2)
ENWeight(a, b) == K4 ** RExp(RNeg(((RAbs(EN[a] -- EN[b]) ++ K5) ^^ 2) // K6))

\* Coordination numbers; weighted by electronegativity for D4.
CNgen(sys, d, cutoff, kind, weighted) ==
  Vec(N(sys), LAMBDA i : RSum([j \in 1..N(sys) |->
     IF i = j \/ ~RLeq(d[i][j], cutoff) THEN Zero
     ELSE LET c == Count(kind, d[i][j], Cov[sys.z[i]] ++ Cov[sys.z[j]])
          IN IF weighted THEN ENWeight(sys.z[i], sys.z[j]) ** c ELSE c]))

CND4(sys, d)       == CNgen(sys, d, R(30), "erf", TRUE)
CND4exp(sys, d)    == CNgen(sys, d, R(30), "exp", TRUE)
CND4pow(sys, d)    == CNgen(sys, d, R(30), "pow", TRUE)
CND3(sys, d)       == CNgen(sys, d, R(25), "exp", FALSE)

\* The charge model's coordination number: own cutoff, smoothly capped at 8.
CapCN(cn) == RLog(1 ++ RExp(8)) -- RLog(1 ++ RExp(8 -- cn))
CNEEQ(sys, d, cutoff) ==
  LET c == CNgen(sys, d, cutoff, "erf", FALSE) IN Vec(N(sys), LAMBDA i : CapCN(c[i]))

Eps64 == R("2.220446049250313e-16")
SafeSqrt(x) == IF RLeq(x, Eps64) THEN RSqrt(Eps64) ELSE RSqrt(x)

SqrtTwoOverPi == R("0.7978845608028654")

\* Charges: the stationary point of the EEQ energy under the total-charge constraint,
\*    A q + m 1 = b,  1.q = Q.
EEQMatrix(sys, d) ==
  LET n == N(sys)
      el(i, j) == IF i = j
                  THEN Tab.eeq_eta[sys.z[i]] ++ (SqrtTwoOverPi // Tab.eeq_rad[sys.z[i]])
                  ELSE LET g == 1 // RSqrt((Tab.eeq_rad[sys.z[i]] ^^ 2) ++ (Tab.eeq_rad[sys.z[j]] ^^ 2))
                       IN RErf(d[i][j] ** g) // d[i][j]
  IN Mat(n + 1, n + 1, LAMBDA i, j :
        IF i <= n /\ j <= n THEN el(i, j) ELSE IF i = n + 1 /\ j = n + 1 THEN Zero ELSE One)

EEQRhs(sys, cn, Q) ==
  Vec(N(sys) + 1, LAMBDA i :
     IF i = N(sys) + 1 THEN R(Q)
     ELSE (SafeSqrt(cn[i]) ** Tab.eeq_kcn[sys.z[i]]) -- Tab.eeq_chi[sys.z[i]])

\* The charge model is defined where its interaction matrix is (clearly) positive definite;
\* atoms squeezed together far below bonding distance leave that domain.
EEQDefined(sys, d) ==
  LET n == N(sys)
      A == EEQMatrix(sys, d)
  IN n = 0 \/ RLt(R("0.01"), RMinPivot([i \in 1..n |-> SubSeq(A[i], 1, n)]))

Charges(sys, d, Q, cutoff) ==
  IF N(sys) = 0 THEN << >>
  ELSE LET x == RSolve(EEQMatrix(sys, d), EEQRhs(sys, CNEEQ(sys, d, cutoff), Q))
       IN SubSeq(x, 1, N(sys))
=============================================================================
