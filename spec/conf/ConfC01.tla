------------------------------ MODULE ConfC01 ------------------------------
EXTENDS Conform
CJudge(r) == IF \A c \in 1..Len(r.calls) : EnergyOk(r.calls[c], r.obs[c])
             THEN {} ELSE {"energy"}
============================================================================
