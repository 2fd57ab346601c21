-------------------------------- MODULE Props --------------------------------
(* Meaning of the property function and of C6/polarizability requests. *)
EXTENDS Weights

\* the property function: coordination numbers, charges, C6, static polarizabilities
PropsOf(call, m) ==
  LET sys == MolSys(call, m)
      d == Distances(sys)
      cn == CND4(sys, d)
      q == Charges(sys, d, CallCharge(call, m), CallCut(call).cn_eeq)
      pol == AtomPols(sys, cn, q, DefaultOpt)
  IN [cn |-> cn, q |-> q, c6 |-> C6Matrix(sys, cn, q, DefaultOpt), alpha |-> Vec(N(sys), LAMBDA i : pol[i][1]),
      sharp |-> \A i \in 1..N(sys) : RLt(R("1e-4"), CNEEQ(sys, d, CallCut(call).cn_eeq)[i])]

VClose(a, b, n, rel, abs) == Len(a) >= n /\ \A i \in 1..n : RClose(a[i], b[i], (rel ** RAbs(b[i])) ++ abs)
MClose(a, b, n, rel, abs) == Len(a) >= n /\ \A i \in 1..n : VClose(a[i], b[i], n, rel, abs)
MPad(a, n) == \A i, j \in 1..Len(a) : (i > n \/ j > n) => REq(a[i][j], 0)
PropsDefined(call, m) == LET sys == MolSys(call, m) IN EEQDefined(sys, Distances(sys))

PropsJudge(call, ob, m) ==
  LET n == Len(call.mols[m].z)
      s == PropsOf(call, m)
      row(x) == Rows(call, x)[m]
      rel == RelTol(call.dtype, s.sharp)
      f64 == call.dtype = "float64"
      qa == IF f64 THEN IF s.sharp THEN R("1e-11") ELSE R("1e-7") ELSE IF s.sharp THEN R("2e-4") ELSE R("1e-2")
      ca == IF f64 THEN R("1e-12") ELSE R("1e-5")
  IN IF ~PropsDefined(call, m) THEN {}
     ELSE (IF VClose(row(ob.cn), s.cn, n, rel, ca) /\ PadOk(row(ob.cn), n) THEN {} ELSE {"cn"})
          \cup (IF VClose(row(ob.q), s.q, n, rel, qa) /\ PadOk(row(ob.q), n) THEN {} ELSE {"charges"})
          \cup (IF MClose(row(ob.c6), s.c6, n, rel, ca) /\ MPad(row(ob.c6), n) THEN {} ELSE {"c6"})
          \cup (IF VClose(row(ob.alpha), s.alpha, n, rel, ca) /\ PadOk(row(ob.alpha), n) THEN {} ELSE {"alpha"})
=============================================================================
