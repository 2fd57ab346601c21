------------------------------- MODULE Weights -------------------------------
(* Meaning of a request for reference weights (optionally with derivatives). *)
EXTENDS Calls

WCN(call, m, i) == IF Fld(call, "cn") THEN Num(call.cn[m][i], K) ELSE Zero
WQ(call, m, i)  == IF Fld(call, "q") THEN Num(call.q[m][i], K) ELSE Zero

\* weights of atom i of molecule m next to atom j (the partner matters in the pairwise models only)
AtomWeights(call, m, i, j, cn, q) ==
  LET mol == call.mols[m]
      opt == CallOpt(call)
  IN Weights(mol.z[i], cn, q, AtomWf(mol, i, j, opt), opt)

\* the exponent of a Gaussian may be several hundred, so its rounding error is relative to that
WTol(call, w) == IF call.dtype = "float64" THEN (R("1e-9") ** RAbs(w)) ++ R("1e-14") ELSE (R("1e-4") ** RAbs(w)) ++ R("1e-6")

Unclear(call, m, i, j, cn) ==
  LET mol == call.mols[m]
      opt == CallOpt(call)
  IN NearUnderflow(mol.z[i], cn, AtomWf(mol, i, j, opt))

\* how the real tensor is indexed: [i][r], or [j][i][r] in the pairwise models
At(call, t, i, j, r) == IF Pairwise(CallOpt(call)) THEN t[j][i][r] ELSE t[i][r]
Partners(call, n, i) == IF Pairwise(CallOpt(call)) THEN 1..n ELSE {i}
PadIdx(call, n, w) == IF Pairwise(CallOpt(call))
                      THEN {x \in (1..w) \X (1..w) : x[2] > n} ELSE {<<1, i>> : i \in (n + 1)..w}
=============================================================================
