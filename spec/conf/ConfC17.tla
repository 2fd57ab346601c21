------------------------------ MODULE ConfC17 ------------------------------
EXTENDS Conform
Names == <<"default", "supplied", "covalent-radii", "explicit-default">>
RECURSIVE Near(_, _, _, _)
Near(a, b, d, rel) == IF d = 0 THEN RClose(a, b, (rel ** RAbs(a)) ++ R("1e-18"))
                      ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], d - 1, rel)
Dp(call) == IF call.layout = "single" THEN 1 ELSE 2
CJudge(r) ==
  LET c == r.calls
      o == r.obs
  IN {Names[k] : k \in {x \in 1..4 : Defined(c[x]) /\ (Broken(o[x]) \/ ~EnergyOk(c[x], o[x]))}}
     \cup (IF ~Defined(c[1]) \/ Broken(o[1]) \/ Broken(o[4]) \/ Near(o[1].energy, o[4].energy, Dp(c[1]), R("1e-9")) THEN {} ELSE {"explicit-default"})
     \cup (IF ~Defined(c[2]) \/ Broken(o[2]) \/ Broken(o[3]) \/ Near(o[2].energy, o[3].energy, Dp(c[1]), R("1e-12")) THEN {} ELSE {"covalent-radii"})
============================================================================
