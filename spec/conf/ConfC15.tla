------------------------------ MODULE ConfC15 ------------------------------
(* calls: 1 double/default double, 2 double/default single, 3 single/default single, 4 single/default double *)
EXTENDS Conform, Props
RECURSIVE Near(_, _, _, _)
\* nested results of depth d agree within tol
Near(a, b, d, tol) == IF d = 0 THEN RClose(a, b, tol)
                      ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], d - 1, tol)
RECURSIVE Biggest(_, _)
Biggest(a, d) == IF Len(a) = 0 THEN Zero ELSE IF d = 1 THEN RMaxAbs(a) ELSE RMaxOf([i \in 1..Len(a) |-> Biggest(a[i], d - 1)])
Dp(call) == IF call.layout = "single" THEN 1 ELSE 2
NearT(a, b, d, rel, abs) == Near(a, b, d, (rel ** Biggest(a, d)) ++ abs)
EnergyJudge(r) ==
  LET c == r.calls
      o == r.obs
      d == Dp(c[1])
      sharp == \A m \in 1..Len(c[1].mols) : Context(c[1], m).sharp
  IN IF ~Defined(c[1]) THEN {}
     ELSE IF \E k \in 1..4 : Broken(o[k]) THEN {"error"}
     ELSE (IF \A k \in 1..4 : o[k].dtype = c[k].dtype /\ o[k].gdtype = c[k].dtype THEN {} ELSE {"dtype"})
          \cup (IF EnergyOk(c[1], o[1]) /\ EnergyOk(c[2], o[2]) THEN {} ELSE {"double"})
          \cup (IF EnergyOk(c[3], o[3]) /\ EnergyOk(c[4], o[4]) THEN {} ELSE {"single"})
          \cup (IF NearT(o[1].energy, o[2].energy, d, R("1e-13"), R("1e-20")) /\ NearT(o[1].grad, o[2].grad, d + 1, R("1e-12"), R("1e-20"))
                THEN {} ELSE {"default-type"})
          \cup (IF NearT(o[3].energy, o[4].energy, d, R("1e-5"), R("1e-12")) THEN {} ELSE {"default-type"})
          \* without the charge model in between single precision is good to four digits
          \cup (IF (UsesCharges(c[1]) /\ ~Fld(c[1], "q"))
                   \/ \A m \in 1..Len(c[1].mols) : NearT(Rows(c[1], o[1].energy)[m], Rows(c[1], o[3].energy)[m], 1, R("2e-4"), R("1e-12"))
                THEN {} ELSE {"single"})
          \cup (IF ~sharp \/ NearT(o[1].grad, o[3].grad, d + 1, R("1e-2"), R("1e-9")) THEN {} ELSE {"single-gradient"})
PJudge(r) ==
  LET c == r.calls
      o == r.obs
      all(k) == UNION {PropsJudge(c[k], o[k], m) : m \in 1..Len(c[k].mols)}
      d == Dp(c[1])
  IN IF \E m \in 1..Len(c[1].mols) : ~PropsDefined(c[1], m) THEN {}
     ELSE IF \E k \in 1..4 : Broken(o[k]) THEN {"error"}
     ELSE (IF \A k \in 1..4 : \A i \in 1..4 : o[k].dtypes[i] = c[k].dtype THEN {} ELSE {"dtype"})
          \cup UNION {all(k) : k \in 1..4}
          \cup (IF NearT(o[1].q, o[2].q, d, R("1e-13"), R("1e-14")) /\ NearT(o[1].c6, o[2].c6, d + 1, R("1e-13"), R("1e-20"))
                   /\ NearT(o[1].alpha, o[2].alpha, d, R("1e-13"), R("1e-20")) /\ NearT(o[1].cn, o[2].cn, d, R("1e-13"), R("1e-14"))
                THEN {} ELSE {"default-type"})
WJudge(r) ==
  LET call == r.call
      t == Rows(call, r.obs.gw)
      tol(w) == WTol(call, w)
      ok(m) == LET n == Len(call.mols[m].z)
               IN \A i \in 1..n : \A j \in Partners(call, n, i) :
                    LET cn == WCN(call, m, i)
                        w == AtomWeights(call, m, i, j, cn, WQ(call, m, i))
                    IN Unclear(call, m, i, j, cn) \/ \A f \in 1..NRef : RClose(At(call, t[m], i, j, f), w[f], tol(w[f]))
  IN IF Broken(r.obs) THEN {"error"}
     ELSE (IF r.obs.dtype = "torch." \o call.dtype /\ \A k \in 1..Len(r.obs.dtypes) : r.obs.dtypes[k] = "torch." \o call.dtype THEN {} ELSE {"dtype"})
          \cup (IF \A m \in 1..Len(call.mols) : ok(m) THEN {} ELSE {"single-weights"})
CJudge(r) == IF r.kind = "weights" THEN WJudge(r) ELSE IF r.calls[1].api = "props" THEN PJudge(r) ELSE EnergyJudge(r)
============================================================================
