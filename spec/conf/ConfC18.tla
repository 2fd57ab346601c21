------------------------------ MODULE ConfC18 ------------------------------
(* Weights with derivatives: the weights, then d/dCN if asked for, then d/dq if asked for. *)
EXTENDS Conform, Weights
DTol(call, w) == IF call.dtype = "float64" THEN (R("1e-8") ** RAbs(w)) ++ R("1e-9") ELSE (R("1e-3") ** RAbs(w)) ++ R("1e-4")
Refused(r) == r.dcn /\ Pairwise(CallOpt(r.call))
MolJudge(r, m) ==
  LET call == r.call
      n == Len(call.mols[m].z)
      row(k) == Rows(call, r.obs.out[k])[m]
      kq == IF r.dcn THEN 3 ELSE 2
      pairs == {x \in (1..n) \X (1..n) : x[2] \in Partners(call, n, x[1])}
      clear == {x \in pairs : ~Unclear(call, m, x[1], x[2], WCN(call, m, x[1]))}
      w(x) == AtomWeights(call, m, x[1], x[2], WCN(call, m, x[1]), WQ(call, m, x[1]))
      wcn(x) == AtomWeights(call, m, x[1], x[2], RVar(WCN(call, m, x[1]), One), WQ(call, m, x[1]))
      wq(x) == AtomWeights(call, m, x[1], x[2], WCN(call, m, x[1]), RVar(WQ(call, m, x[1]), One))
      at(k, x, f) == At(call, row(k), x[1], x[2], f)
      \* at the end of the charge scale the scaling has a kink
      kink(x) == RClose(WQ(call, m, x[1]) ++ Zeff[call.mols[m].z[x[1]]], 0, R("1e-9"))
      same(k, t(_), sgn) == \A x \in clear : LET s == t(x) IN \A f \in 1..NRef :
                              RClose(at(k, x, f), sgn ** RD1(s[f]), DTol(call, RD1(s[f])))
  IN (IF \A x \in clear : LET s == w(x) IN \A f \in 1..NRef : RClose(at(1, x, f), s[f], WTol(call, s[f])) THEN {} ELSE {"weights"})
     \cup (IF ~r.dcn \/ same(2, wcn, One) THEN {} ELSE IF same(2, wcn, RNeg(One)) THEN {"dcn-sign"} ELSE {"dcn"})
     \cup (IF ~r.dq \/ \A x \in clear : kink(x) \/ LET s == wq(x) IN \A f \in 1..NRef : RClose(at(kq, x, f), RD1(s[f]), DTol(call, RD1(s[f])))
           THEN {} ELSE {"dq"})
     \cup (IF \A k \in 1..Len(r.obs.out) : \A x \in PadIdx(call, n, Len(row(k))) : \A f \in 1..NRef : REq(At(call, row(k), x[2], x[1], f), 0)
           THEN {} ELSE {"padding"})
CJudge(r) ==
  IF Refused(r) THEN IF Broken(r.obs) /\ r.obs.err = "NotImplementedError" THEN {} ELSE {"not-refused"}
  ELSE IF Broken(r.obs) THEN {"error"}
  ELSE IF Len(r.obs.out) # 1 + (IF r.dcn THEN 1 ELSE 0) + (IF r.dq THEN 1 ELSE 0) THEN {"outputs"}
  ELSE UNION {MolJudge(r, m) : m \in 1..Len(r.call.mols)}
============================================================================
