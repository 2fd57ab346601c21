------------------------------ MODULE ConfC13 ------------------------------
EXTENDS Conform, Faults
JudgeCall(c, ob) ==
  IF Fld(c, "fault")
  THEN LET x == Expected(c)
       IN IF x = "none" THEN IF Broken(ob) /\ Defined(c) THEN {"valid-refused"} ELSE {}
          ELSE IF ~Broken(ob) THEN {"accepted-" \o c.fault.what}
          ELSE IF ob.err = x THEN {} ELSE {"error-type-" \o c.fault.what}
  ELSE IF ~Defined(c) THEN {}
  ELSE IF Broken(ob) THEN {"valid-refused"} ELSE IF EnergyOk(c, ob) THEN {} ELSE {"energy"}
CJudge(r) == UNION {JudgeCall(r.calls[k], r.obs[k]) : k \in 1..Len(r.calls)}
============================================================================
