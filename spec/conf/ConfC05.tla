------------------------------ MODULE ConfC05 ------------------------------
EXTENDS Conform, Props
\* atom i's reference weights next to j
Wt(call, m, i, j, r) == IF Pairwise(CallOpt(call)) THEN Num(call.gw[m][j][i][r], K) ELSE Num(call.gw[m][i][r], K)
MolJudge(call, m, ob) ==
  LET z == call.mols[m].z
      n == Len(z)
      opt == CallOpt(call)
      pw == Pairwise(opt)
      al == Force([i \in 1..n |-> Alpha(z[i], opt)])
      pol1(i, j) == Vec(NFreq, LAMBDA f : RSum([r \in 1..NRef |-> Wt(call, m, i, j, r) ** al[i][r][f]]))
      pols == IF pw THEN Mat(n, n, LAMBDA i, j : pol1(i, j)) ELSE Vec(n, LAMBDA i : pol1(i, i))
      pol(i, j) == IF pw THEN pols[i][j] ELSE pols[i]
      mean == Mat(n, NFreq, LAMBDA i, f : IF pw THEN RSum([j \in 1..n |-> pol(i, j)[f]]) // n ELSE pol(i, i)[f])
      c6 == Rows(call, ob.c6)[m]
      wp == Rows(call, ob.pols)[m]
      st == Rows(call, ob.static)[m]
      f64 == call.dtype = "float64"
      rel == IF f64 THEN R("1e-11") ELSE R("2e-5")
      abs == IF f64 THEN R("1e-13") ELSE R("1e-5")
  IN (IF \A i, j \in 1..n : LET s == CasimirPolder(pol(i, j), pol(j, i)) IN RClose(c6[i][j], s, (rel ** s) ++ abs)
      THEN {} ELSE {"c6"})
     \cup (IF \A i, j \in 1..n : RClose(c6[i][j], c6[j][i], ((IF f64 THEN R("1e-12") ELSE R("2e-6")) ** RAbs(c6[i][j])) ++ abs) /\ RLeq(0, c6[i][j])
           THEN {} ELSE {"symmetry"})
     \cup (IF MPad(c6, n) THEN {} ELSE {"padding"})
     \cup (IF \A i \in 1..n : \A f \in 1..NFreq : RClose(wp[i][f], mean[i][f], (rel ** mean[i][f]) ++ abs)
           THEN {} ELSE {"dynamic-polarizability"})
     \cup (IF \A i \in 1..n : RClose(st[i], mean[i][1], (rel ** mean[i][1]) ++ abs) THEN {} ELSE {"static-polarizability"})
     \cup (IF \A i \in (n + 1)..Len(st) : REq(st[i], 0) /\ \A f \in 1..NFreq : REq(wp[i][f], 0) THEN {} ELSE {"padding"})
\* the Casimir-Polder quadrature applied to given polarizabilities
QuadJudge(r) ==
  LET f(x) == Force([w \in 1..NFreq |-> R(x[w])])
      ones == Force([w \in 1..NFreq |-> One])
      rel == IF r.dtype = "float64" THEN R("1e-12") ELSE R("1e-5")
      ok(o, x, y) == LET s == CasimirPolder(f(x), y) IN RClose(o, s, (rel ** s) ++ R("1e-30"))
      b == IF "b" \in DOMAIN r THEN r.b ELSE r.a
      D(x) == 1..Len(x)
      one(v) ==
        CASE r.form = "atm" -> \A i \in D(r.a) : \A j \in D(r.a[i]) : \A k \in D(r.a[i][j]) : ok(v[i][j][k], r.a[i][j][k], ones)
          [] r.form = "noref" -> Len(v) = Len(r.a) /\ \A i \in D(r.a) : Len(v[i]) = Len(b) /\ \A j \in D(b) : ok(v[i][j], r.a[i], f(b[j]))
          [] r.form = "ref" -> Len(v) = Len(r.a) /\ \A i \in D(r.a) : Len(v[i]) = Len(b) /\ \A j \in D(b) :
                 \A p \in D(r.a[i]) : \A q \in D(b[j]) : ok(v[i][j][p][q], r.a[i][p], f(b[j][q]))
  IN IF Broken(r.obs) THEN {"error"} ELSE IF \A l \in D(r.obs.values) : one(r.obs.values[l]) THEN {} ELSE {"quadrature"}
CJudge(r) ==
  IF r.kind = "quad" THEN QuadJudge(r) ELSE
  IF r.kind = "calls"
  THEN UNION {IF Broken(r.obs[c])
              THEN IF \A m \in 1..Len(r.calls[c].mols) : PropsDefined(r.calls[c], m) THEN {"error"} ELSE {}
              ELSE UNION {PropsJudge(r.calls[c], r.obs[c], m) : m \in 1..Len(r.calls[c].mols)} : c \in 1..Len(r.calls)}
  ELSE IF Broken(r.obs) THEN {"error"}
  ELSE UNION {MolJudge(r.call, m, r.obs) : m \in 1..Len(r.call.mols)}
============================================================================
