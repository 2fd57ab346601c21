------------------------------ MODULE ConfC19 ------------------------------
EXTENDS Conform
Factor(p, k) == IF Has(p, k) THEN Num(p[k], K) ELSE IF k = "s10" THEN Zero ELSE IF k = "s8" /\ ~Has(p, "rs8") THEN Zero ELSE One
\* call c against the combination of the unit calls, atom by atom
Combined(r, c) ==
  LET fs == r.factors
      call == r.calls[c]
      f(k) == Factor(call.p, fs[k])
      rows(x) == Rows(r.calls[1], r.obs[x].energy)
      ok(m, i) == LET parts == [k \in 1..Len(fs) |-> f(k) ** rows(k)[m][i]]
                  IN RClose(rows(c)[m][i], RSum(parts), (R("1e-11") ** RSumAbs(parts)) ++ R("1e-20"))
  IN \A m \in 1..Len(call.mols) : \A i \in 1..Len(call.mols[m].z) : ok(m, i)
LinearJudge(r) ==
  LET U == Len(r.factors)
      n == Len(r.calls)
  IN IF ~Defined(r.calls[1]) THEN {}
     ELSE IF \E c \in 1..n : Broken(r.obs[c]) THEN {"error"}
     ELSE (IF \A c \in 1..n : EnergyOk(r.calls[c], r.obs[c]) THEN {} ELSE {"energy"})
          \cup (IF \A c \in (U + 1)..n : Combined(r, c) THEN {} ELSE {"linear"})
RECURSIVE CatRows(_)
CatRows(t) == IF Len(t) = 0 THEN << >> ELSE Head(t) \o CatRows(Tail(t))
FragJudge(r) ==
  LET L == Len(r.calls) - 1
      parts == CatRows([m \in 1..L |-> r.obs[m].energy])
      whole == r.obs[L + 1].energy
  IN IF \E c \in 1..(L + 1) : Broken(r.obs[c]) THEN {"error"}
     ELSE (IF \A c \in 1..(L + 1) : EnergyOk(r.calls[c], r.obs[c]) THEN {} ELSE {"energy"})
          \cup (IF Len(whole) = Len(parts) /\ \A i \in 1..Len(whole) :
                     RClose(whole[i], parts[r.order[i]], (R("1e-9") ** RAbs(whole[i])) ++ R("1e-18"))
                THEN {} ELSE {"additive"})
CJudge(r) == IF r.what = "linear" THEN LinearJudge(r) ELSE FragJudge(r)
============================================================================
