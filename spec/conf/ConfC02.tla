------------------------------ MODULE ConfC02 ------------------------------
(* The pair energy: half of every pair on each partner, nothing else. *)
EXTENDS Conform
Close(f32, x, y, a) == IF f32 THEN RClose(x, y, (R("2e-4") ** a) ++ R("1e-20")) ELSE RClose(x, y, (R("1e-11") ** a) ++ R("1e-30"))
MolJudge(call, m, row, mat) ==
  LET sys == MolSys(call, m)
      n == N(sys)
      c6 == Mat(n, n, LAMBDA i, j : Num(call.c6[m][i][j], 1024))
      r4r2 == Vec(n, LAMBDA i : Num(call.r4r2[m][i], 1024))
      vdw == Mat(n, n, LAMBDA i, j : Num(call.vdw[m][i][j], 1024))
      p == CallParam(call)
      pm == PairMatrix(n, Distances(sys), c6, r4r2, vdw, call.damp, p, CallCut(call).disp2)
      pa == PairMatrix(n, Distances(sys), c6, r4r2, vdw, call.damp,
                       [k \in DOMAIN p |-> RAbs(p[k])], CallCut(call).disp2)
      \* pairs that single precision may put on either side of the cutoff
      d == Distances(sys)
      c == CallCut(call).disp2
      edge(i, j) == call.dtype = "float32" /\ RClose(d[i][j], c, R("1e-4") ** c)
  IN (IF \A i \in 1..n : \/ \E j \in 1..n : edge(i, j)
                         \/ Close(call.dtype = "float32", row[i], Half ** RSum(pm[i]), RSumAbs(pa[i])) THEN {} ELSE {"atoms"})
     \cup (IF \A i, j \in 1..n : edge(i, j) \/ Close(call.dtype = "float32", mat[i][j], pm[i][j], RAbs(pa[i][j])) THEN {} ELSE {"matrix"})
     \cup (IF \A i \in 1..n : REq(mat[i][i], 0) THEN {} ELSE {"self-interaction"})
     \cup (IF /\ PadOk(row, n)
              /\ \A i, j \in 1..Len(row) : (i > n \/ j > n) => REq(mat[i][j], 0) THEN {} ELSE {"padding"})
CJudge(r) ==
  IF Broken(r.obs) THEN {"error"}
  ELSE LET e == Rows(r.call, r.obs.energy)
           mt == Rows(r.call, r.obs.matrix)
       IN UNION {MolJudge(r.call, m, e[m], mt[m]) : m \in 1..Len(r.call.mols)}
============================================================================
