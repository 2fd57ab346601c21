------------------------------ MODULE ConfC03 ------------------------------
(* The three-body energy: every triple once, a third on each of its atoms. *)
EXTENDS Conform
MolJudge(call, m, row) ==
  LET sys == MolSys(call, m)
      n == N(sys)
      d == Distances(sys)
      u == Vec(n, LAMBDA i : Num(call.u[m][i], 1024))
      c9(i, j, k) == u[i] ** u[j] ** u[k]
      rad == Mat(n, n, LAMBDA i, j : Num(call.rad[m][i][j], 1024))
      p == CallParam(call)
      e == ThreeBody(n, d, c9, rad, CallCut(call).disp3, p.s9, p.alp, Opt(call, "damp", "zero"))
      t == TripleTable(n, d, c9, rad, CallCut(call).disp3, p.s9, p.alp, Opt(call, "damp", "zero"))
      size == RSum([i \in 1..n |-> RSum([j \in 1..(i - 1) |-> RSumAbs(t[i][j])])])
  IN (IF \A i \in 1..n : RClose(row[i], e[i], ((IF call.dtype = "float32" THEN R("1e-3") ELSE R("1e-11")) ** size) ++ R("1e-30")) THEN {} ELSE {"atoms"})
     \cup (IF PadOk(row, n) THEN {} ELSE {"padding"})
CJudge(r) ==
  IF r.kind = "atmraw"
  THEN IF Broken(r.obs) THEN {"error"}
       ELSE LET e == Rows(r.call, r.obs.energy)
            IN UNION {MolJudge(r.call, m, e[m]) : m \in 1..Len(r.call.mols)}
  ELSE IF \A c \in 1..Len(r.calls) : EnergyOk(r.calls[c], r.obs[c]) THEN {} ELSE {"term-energy"}
============================================================================
