------------------------------ MODULE ConfC06 ------------------------------
(* calls: 1 the batch, 2 another arrangement (molecule k is number other[k]), 3.. one molecule each,
   finally (optional) the batch with a second batch dimension *)
EXTENDS Conform, Props
Max2(a, b) == IF RLeq(a, b) THEN b ELSE a
VecMax(v, n) == IF n = 0 THEN Zero ELSE RMaxAbs([i \in 1..n |-> v[i]])
\* the first n entries agree, the rest is exactly zero
Same(a, b, n, rel, abs) == Len(a) >= n /\ \A i \in 1..n : RClose(a[i], b[i], (rel ** VecMax(b, n)) ++ abs)
GradMax(g, n) == IF n = 0 THEN Zero ELSE RMaxOf([i \in 1..n |-> RMaxAbs(g[i])])
SameG(a, b, n, rel, abs) ==
  \A i \in 1..n : \A x \in 1..3 : RClose(a[i][x], b[i][x], (rel ** GradMax(b, n)) ++ abs)
PadG(a, n) == \A i \in (n + 1)..Len(a) : \A x \in 1..3 : REq(a[i][x], 0)

EnergyRel(r, a, ka, single, ks) ==
  LET ca == r.calls[a]
      n == Len(r.calls[single].mols[ks].z)
      sharp == Context(r.calls[single], ks).sharp
      ea == Rows(ca, r.obs[a].energy)[ka]
      eb == Rows(r.calls[single], r.obs[single].energy)[ks]
      ga == Rows(ca, r.obs[a].grad)[ka]
      gb == Rows(r.calls[single], r.obs[single].grad)[ks]
      f32 == ca.dtype = "float32"
      rel == IF f32 THEN IF sharp THEN R("1e-4") ELSE R("5e-3") ELSE IF sharp THEN R("1e-11") ELSE R("1e-6")
      relg == IF f32 THEN IF sharp THEN R("1e-2") ELSE R("0.1") ELSE IF sharp THEN R("1e-8") ELSE R("1e-5")
      abse == IF f32 THEN R("1e-12") ELSE R("1e-20")
      absg == IF f32 THEN R("1e-8") ELSE R("1e-16")
  IN (IF Same(ea, eb, n, rel, abse) THEN {} ELSE {"batch-energy"})
     \cup (IF r.obs[a].linked THEN {} ELSE {"gradient-missing"})
     \cup (IF SameG(ga, gb, n, relg, absg) THEN {} ELSE {"batch-gradient"})
     \cup (IF PadOk(ea, n) /\ PadG(ga, n) THEN {} ELSE {"padding"})
AnyBroken(r) == \E c \in 1..Len(r.calls) : Broken(r.obs[c])
EnergyJudge(r) ==
  LET L == Len(r.calls[1].mols)
      single(m) == 2 + m
  IN IF ~Defined(r.calls[1]) THEN {}
     ELSE IF AnyBroken(r) THEN {"error"}
     ELSE (IF EnergyOk(r.calls[1], r.obs[1]) THEN {} ELSE {"energy"})
          \cup UNION {EnergyRel(r, 1, m, single(m), 1) : m \in 1..L}
          \cup UNION {EnergyRel(r, 2, k, single(r.other[k]), 1) : k \in 1..Len(r.other)}
          \cup (IF ~r.three THEN {} ELSE UNION {EnergyRel(r, Len(r.calls), m, single(m), 1) : m \in 1..L})
PropsAll(r) ==
  IF \E m \in 1..Len(r.calls[1].mols) : ~PropsDefined(r.calls[1], m) THEN {}
  ELSE IF AnyBroken(r) THEN {"error"}
  ELSE UNION {UNION {PropsJudge(r.calls[c], r.obs[c], m) : m \in 1..Len(r.calls[c].mols)} : c \in 1..Len(r.calls)}
CJudge(r) == IF r.calls[1].api = "props" THEN PropsAll(r) ELSE EnergyJudge(r)
============================================================================
