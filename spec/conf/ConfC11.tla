------------------------------ MODULE ConfC11 ------------------------------
EXTENDS Conform, Params
LookupJudge(r) ==
  LET bad == {k \in 1..Len(r.ops) : ~LookupOk(r.ops[k], r.obs[k])}
      clause(k) ==
        LET op == r.ops[k]
            ob == r.obs[k]
            known == Known(op.method, op.func, op.var)
        IN IF known /\ "err" \in DOMAIN ob THEN "refused" ELSE IF known THEN "wrong-entry"
           ELSE IF "err" \in DOMAIN ob THEN "error-type" ELSE "invented-entry"
  IN {clause(k) : k \in bad} \cup (IF r.later_ok THEN {} ELSE {"altered-later"})
\* a looked-up set handed to an evaluation
UseJudge(r) == IF EnergyOk(r.calls[1], r.obs[1]) THEN {} ELSE {"unusable"}
CJudge(r) == IF r.kind = "lookup" THEN LookupJudge(r) ELSE UseJudge(r)
============================================================================
