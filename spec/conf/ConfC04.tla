------------------------------ MODULE ConfC04 ------------------------------
EXTENDS Conform, Weights
MolJudge(call, m, t) ==
  LET n == Len(call.mols[m].z)
      w == Len(t)
      ok(i, j) ==
        LET cn == WCN(call, m, i)
            s == AtomWeights(call, m, i, j, cn, WQ(call, m, i))
        IN \/ Unclear(call, m, i, j, cn)
           \/ \A r \in 1..NRef : RClose(At(call, t, i, j, r), s[r], WTol(call, s[r]))
      absent(i, j) == \A r \in 1..NRef : RefC[call.mols[m].z[i]][r] = 0 => REq(At(call, t, i, j, r), 0)
      pairs == {x \in (1..n) \X (1..n) : x[2] \in Partners(call, n, x[1])}
  IN (IF \A x \in pairs : ok(x[1], x[2]) THEN {} ELSE {"weights"})
     \cup (IF \A x \in pairs : absent(x[1], x[2]) THEN {} ELSE {"absent-reference"})
     \cup (IF \A x \in PadIdx(call, n, w) : \A r \in 1..NRef : REq(At(call, t, x[2], x[1], r), 0)
           THEN {} ELSE {"padding"})
CJudge(r) ==
  IF Broken(r.obs) THEN {"error"}
  ELSE LET t == Rows(r.call, r.obs.gw)
       IN UNION {MolJudge(r.call, m, t[m]) : m \in 1..Len(r.call.mols)}
============================================================================
