------------------------------ MODULE ConfC09 ------------------------------
(* S = sum of w_i E_i over all atoms; obs.first and obs.second are its first and second derivative
   along the call's direction, obs.grad the gradient of S with respect to the positions. *)
EXTENDS Conform, Props
Flat(f, L) == RSum([m \in 1..L |-> f[m]])
\* one sequence of records per molecule: value, derivatives and the scale of their rounding errors
MolJet(r, m) ==
  LET call == r.call
      ctx == Context(call, m)
      n == Len(call.mols[m].z)
      T == Len(CallTerms(call))
      e == Force([t \in 1..T |-> TermEnergy(CallTerms(call)[t], ctx)])
      w(i) == Num(r.w[m][i], 16)
      all(f(_, _)) == RSum([t \in 1..T |-> RSum([i \in 1..n |-> f(t, i)])])
      v(t, i) == w(i) ** RD0(e[t][i])
      d1(t, i) == w(i) ** RD1(e[t][i])
      d2(t, i) == w(i) ** RD2(e[t][i])
      a(t, i) == RAbs(v(t, i))
      a1(t, i) == RAbs(d1(t, i))
      a2(t, i) == RAbs(d2(t, i))
  IN [s0 |-> all(v), s1 |-> all(d1), s2 |-> all(d2), a0 |-> all(a), a1 |-> all(a1), a2 |-> all(a2), sharp |-> ctx.sharp]
Sharp(r) == \A m \in 1..Len(r.call.mols) : Context(r.call, m).sharp
\* a weight about to underflow is not differentiable in floating point
CJudge(r) ==
  IF ~Defined(r.call) THEN {}
  ELSE IF Broken(r.obs) THEN {"error"}
  ELSE
  LET L == Len(r.call.mols)
      j == Force([m \in 1..L |-> MolJet(r, m)])
      sum(k) == RSum([m \in 1..L |-> j[m][k]])
      sharp == \A m \in 1..L : j[m].sharp
      c0 == sum("a0")
      c1 == c0 ++ sum("a1")
      c2 == c1 ++ sum("a2")
      t1 == IF sharp THEN R("1e-8") ELSE R("1e-3")
      t2 == IF sharp THEN R("1e-6") ELSE R("1e-2")
      val(o) == IF RClose(o, sum("s0"), ((IF sharp THEN R("1e-10") ELSE R("1e-6")) ** c0) ++ R("1e-20")) THEN {} ELSE {"value"}
      first(o) == IF RClose(o, sum("s1"), (t1 ** c1) ++ R("1e-18")) THEN {} ELSE {"first"}
      second(o) == IF RClose(o, sum("s2"), (t2 ** c2) ++ R("1e-16")) THEN {} ELSE {"second"}
      \* the energy does not depend on being differentiated
      plain == IF RClose(r.obs.value, r.obs.plain, R("1e-13") ** c0) THEN {} ELSE {"value-changed"}
      rows == Rows(r.call, r.obs.grad)
      n(m) == Len(r.call.mols[m].z)
      trans(m) == \A x \in 1..3 :
                     RClose(RSum([i \in 1..n(m) |-> rows[m][i][x]]), 0,
                            ((IF sharp THEN R("1e-9") ELSE R("1e-4")) ** (RSumAbs([i \in 1..n(m) |-> rows[m][i][x]]) ++ c0)) ++ R("1e-18"))
      padz(m) == \A i \in (n(m) + 1)..Len(rows[m]) : \A x \in 1..3 : REq(rows[m][i][x], 0)
  IN (IF r.obs.linked THEN {} ELSE {"gradient-missing"}) \cup val(r.obs.value) \cup plain \cup first(r.obs.first) \cup second(r.obs.second)
     \cup (IF \A m \in 1..L : trans(m) THEN {} ELSE {"force-sum"})
     \cup (IF \A m \in 1..L : padz(m) THEN {} ELSE {"padding"})
     \cup (IF Fld(r.obs, "ffirst") THEN first(r.obs.ffirst) \cup second(r.obs.fsecond) \cup first(r.obs.jfirst) \cup second(r.obs.jsecond)
                                         \cup first(r.obs.vfirst) \cup (IF Fld(r.obs, "vsecond") THEN second(r.obs.vsecond) ELSE {}) ELSE {})
============================================================================
