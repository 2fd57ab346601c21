------------------------------ MODULE ConfC10 ------------------------------
EXTENDS Conform, Props
RECURSIVE Fin(_, _)
\* a nested result of the given depth is finite everywhere
Fin(x, depth) == IF depth = 0 THEN RFinite(x) ELSE \A i \in 1..Len(x) : Fin(x[i], depth - 1)
Depth(call) == IF call.layout = "single" THEN 1 ELSE 2
EdgeJudge(r) ==
  LET call == r.call
      ob == r.obs
      d == Depth(call)
      rows == Rows(call, ob.energy)
      g == Rows(call, ob.grad)
      n(m) == Len(call.mols[m].z)
      atoms == {m \in 1..Len(call.mols) : n(m) = 1}
  IN IF Broken(ob) THEN IF Defined(call) THEN {"error"} ELSE {}
     ELSE (IF ob.linked THEN {} ELSE {"gradient-missing"})
          \cup (IF Fin(ob.energy, d) THEN {} ELSE {"energy-not-finite"})
          \cup (IF Fin(ob.grad, d + 1) THEN {} ELSE {"gradient-not-finite"})
          \cup (IF \A k \in DOMAIN ob.dparam : RFinite(ob.dparam[k]) THEN {} ELSE {"parameter-gradient-not-finite"})
          \cup (IF Fld(ob, "dq") /\ ~Fin(ob.dq, d) THEN {"charge-gradient-not-finite"} ELSE {})
          \cup (IF \A m \in atoms : REq(rows[m][1], 0) THEN {} ELSE {"atom-energy"})
          \cup (IF \A m \in atoms : \A x \in 1..3 : REq(g[m][1][x], 0) THEN {} ELSE {"atom-force"})
          \cup (IF call.dtype # "float64" \/ EnergyOk(call, ob) THEN {} ELSE {"energy"})
WJudge(r) ==
  LET d == IF r.call.model = "d4" THEN 2 ELSE 3
  IN IF Broken(r.obs) THEN {"error"}
     ELSE (IF Fin(r.obs.gw, d) THEN {} ELSE {"weight-not-finite"})
          \cup (IF Fin(r.obs.dcn, 1) /\ Fin(r.obs.dq, 1) THEN {} ELSE {"weight-gradient-not-finite"})
CJudge(r) == IF r.kind = "wgrad" THEN WJudge(r) ELSE EdgeJudge(r)
============================================================================
