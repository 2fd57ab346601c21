------------------------------ MODULE ConfC20 ------------------------------
EXTENDS Conform, Props
RECURSIVE Near(_, _, _, _, _)
Near(a, b, d, rel, abs) == IF d = 0 THEN RClose(a, b, (rel ** RAbs(a)) ++ abs)
                      ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], d - 1, rel, abs)
Dp(call) == IF call.layout = "single" THEN 1 ELSE 2
\* contributions to one atom may cancel
RECURSIVE Big(_, _)
Big(a, d) == IF Len(a) = 0 THEN Zero ELSE IF d = 1 THEN RMaxAbs(a) ELSE RMaxOf([i \in 1..Len(a) |-> Big(a[i], d - 1)])
SameE(c, a, b) == Near(a, b, Dp(c), R("1e-10"), (R("1e-12") ** Big(a, Dp(c))) ++ R("1e-20"))
Exact(call) == Len(call.terms) = 2 /\ call.terms[2].kind = "atm-exact-bj"
EJudge(r) ==
  LET n == Len(r.calls)
      ref(k) == CHOOSE j \in 1..n : Exact(r.calls[j]) = Exact(r.calls[k]) /\ \A i \in 1..(j - 1) : Exact(r.calls[i]) # Exact(r.calls[k])
  IN IF ~Defined(r.calls[1]) THEN {}
     ELSE IF \E c \in 1..n : Broken(r.obs[c]) THEN {"error"}
     ELSE (IF EnergyOk(r.calls[1], r.obs[1]) /\ EnergyOk(r.calls[n], r.obs[n]) THEN {} ELSE {"energy"})
          \cup (IF \A k \in 2..n : SameE(r.calls[k], r.obs[ref(k)].energy, r.obs[k].energy) THEN {} ELSE {"equivalent"})
PJudge(r) ==
  LET n == Len(r.calls)
      d == Dp(r.calls[1])
      same(k) == /\ Near(r.obs[1].cn, r.obs[k].cn, d, R("1e-11"), R("1e-14")) /\ Near(r.obs[1].q, r.obs[k].q, d, R("1e-9"), R("1e-12"))
                 /\ Near(r.obs[1].c6, r.obs[k].c6, d + 1, R("1e-9"), R("1e-14")) /\ Near(r.obs[1].alpha, r.obs[k].alpha, d, R("1e-9"), R("1e-14"))
  IN IF \E m \in 1..Len(r.calls[1].mols) : ~PropsDefined(r.calls[1], m) THEN {}
     ELSE IF \E c \in 1..n : Broken(r.obs[c]) THEN {"error"}
     ELSE UNION {PropsJudge(r.calls[1], r.obs[1], m) : m \in 1..Len(r.calls[1].mols)}
          \cup (IF \A k \in 2..n : same(k) THEN {} ELSE {"equivalent"})
CJudge(r) == IF r.family = "props" THEN PJudge(r) ELSE EJudge(r)
============================================================================
