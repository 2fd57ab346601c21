------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Meaning of a call to the library.  A call names one or more molecules,  *)
(* a model with options, a damping parameter set, cutoffs and the          *)
(* quantities the user overrides; its meaning is the atom-resolved energy  *)
(* (and the properties) of every molecule by itself.                       *)
(*                                                                         *)
(* Numbers in a call are integers with fixed denominators:                 *)
(*   positions 1/den, charges 1/4, parameters and model options 1/1024,    *)
(*   cutoffs 1/64, partial charges, r4r2 and radii 1/1024.                 *)
(* The fields pden, oden, qden and cden choose another denominator for     *)
(* damping parameters, model options, partial charges and total charges.   *)
(* A call may carry a direction (fields dpos, dp, dq, dchg, same units);   *)
(* all results are then jets along that direction.                         *)
(***************************************************************************)
EXTENDS Energy, Integers, TLC

Fld(r, k) == k \in DOMAIN r
Opt(r, k, d) == IF Fld(r, k) THEN r[k] ELSE d

K == 1024
Num(x, den) == R(x) // den
Lift(x, dx, den) == RVar(R(x) // den, R(dx) // den)

MolSys(call, m) ==
  LET mol == call.mols[m]
      n == Len(mol.z)
  IN [z |-> mol.z,
      pos |-> Force([k \in 1..n |-> Force([i \in 1..3 |->
         IF Fld(call, "dpos") THEN Lift(mol.pos[k][i], call.dpos[m][k][i], mol.den)
         ELSE Num(mol.pos[k][i], mol.den)])])]

CallParam(call) ==
  Force([k \in DOMAIN call.p |->
     IF Fld(call, "dp") /\ Fld(call.dp, k) THEN Lift(call.p[k], call.dp[k], K) ELSE Num(call.p[k], Opt(call, "pden", K))])

CallOpt(call) ==
  LET o == Opt(call, "opt", << >>)
      g(k, d) == IF Fld(o, k) THEN Num(o[k], Opt(call, "oden", K)) ELSE d
  IN [model |-> Opt(call, "model", "d4"), ga |-> g("ga", GA), gc |-> g("gc", GC),
      wf |-> g("wf", "default"), refq |-> IF Fld(o, "refq") THEN o.refq ELSE "eeq",
      wfk |-> IF Fld(o, "wfk") THEN o.wfk ELSE 0, rc6 |-> IF Fld(o, "rc6") THEN o.rc6 ELSE 0]

CallCut(call) ==
  LET c == Opt(call, "cut", << >>)
      g(k) == IF Fld(c, k) THEN Num(c[k], 64) ELSE DefCut[k]
  IN [disp2 |-> g("disp2"), disp3 |-> g("disp3"), cn |-> g("cn"), cn_eeq |-> g("cn_eeq")]

CallCharge(call, m) ==
  LET c == IF Fld(call, "chg") THEN call.chg[m] ELSE 0
  IN IF Fld(call, "dchg") THEN Lift(c, call.dchg[m], 4) ELSE Num(c, Opt(call, "cden", 4))

CallCN(call, sys, d) ==
  LET f == Opt(call, "cnf", "d4")
  IN CASE f = "d4" -> CND4(sys, d) [] f = "d4exp" -> CND4exp(sys, d) [] f = "d3" -> CND3(sys, d)
       [] f = "d4pow" -> CND4pow(sys, d)
       [] f = "zero" -> Vec(N(sys), LAMBDA i : Zero)
       [] f = "const" -> Vec(N(sys), LAMBDA i : R(2))

CallTerms(call) == Opt(call, "terms", D4Terms)
UsesCharges(call) == \E t \in 1..Len(CallTerms(call)) : CallTerms(call)[t].chg

\* everything the terms see, for molecule m
Context(call, m) ==
  LET sys == MolSys(call, m)
      n == N(sys)
      d == Distances(sys)
      cut == CallCut(call)
      cne == CNEEQ(sys, d, cut.cn_eeq)
      q == IF Fld(call, "q")
           THEN Vec(n, LAMBDA i : IF Fld(call, "dq") THEN Lift(call.q[m][i], call.dq[m][i], K) ELSE Num(call.q[m][i], Opt(call, "qden", K)))
           ELSE IF ~UsesCharges(call) THEN NoCharges(sys)
           ELSE Charges(sys, d, CallCharge(call, m), cut.cn_eeq)
  IN [sys |-> sys, d |-> d, cn |-> CallCN(call, sys, d), q |-> q, opt |-> CallOpt(call),
      p |-> CallParam(call),
      r4r2 |-> IF Fld(call, "r4r2") THEN Vec(n, LAMBDA i : Num(call.r4r2[m][i], K)) ELSE DefaultR4R2(sys),
      vdw |-> IF Fld(call, "vdw") THEN Mat(n, n, LAMBDA i, j : Num(call.vdw[m][i][j], K)) ELSE DefaultVdW(sys),
      cut2 |-> cut.disp2, cut3 |-> cut.disp3,
      \* the square root of a tiny coordination number in the charge model amplifies rounding
      sharp |-> Fld(call, "q") \/ ~UsesCharges(call)
                \/ \A i \in 1..n : RLt(R("1e-4"), RD0(cne[i]))]

\* the call lies in the model's domain
Defined(call) ==
  Fld(call, "q") \/ ~UsesCharges(call)
  \/ \A m \in 1..Len(call.mols) : LET sys == MolSys(call, m) IN EEQDefined(sys, Distances(sys))

\* atom-resolved energies of every term of molecule m: e[t][i]
CallEnergies(call, m) ==
  LET ctx == Context(call, m)
  IN Force([t \in 1..Len(CallTerms(call)) |-> TermEnergy(CallTerms(call)[t], ctx)])

Total(e, n) == Vec(n, LAMBDA i : RSum([t \in 1..Len(e) |-> e[t][i]]))

(*------------------------------ comparison ------------------------------*)
\* relative accuracy expected from an evaluation in the given precision
RelTol(dtype, sharp) ==
  IF dtype = "float64" THEN IF sharp THEN R("1e-10") ELSE R("1e-6")
  ELSE IF sharp THEN R("2e-3") ELSE R("2e-2")
AbsTol(dtype) == IF dtype = "float64" THEN R("1e-20") ELSE R("1e-12")

\* observed row (padded to width w) against the term energies of molecule m
RowOk(obs, e, n, dtype, sharp) ==
  LET a(i) == RD0(RSumAbs([t \in 1..Len(e) |-> e[t][i]]))
      \* contributions to one atom may cancel; the molecule sets the scale then
      floor == IF n = 0 THEN Zero ELSE R("0.01") ** RMaxOf([i \in 1..n |-> a(i)])
      f(i) == RClose(obs[i], RD0(RSum([t \in 1..Len(e) |-> e[t][i]])),
                     (RelTol(dtype, sharp) ** (a(i) ++ floor)) ++ AbsTol(dtype))
  IN Len(obs) >= n /\ \A i \in 1..n : f(i)
\* padding receives exactly zero
PadOk(obs, n) == \A i \in (n + 1)..Len(obs) : REq(obs[i], 0)

RECURSIVE Flatten(_)
\* rows of a result: a single molecule gives one row, a batch one row per molecule
Rows(call, out) == IF call.layout = "single" THEN <<out>>
                   ELSE IF call.layout = "batch" THEN out
                   ELSE Flatten(out)
Flatten(out) == IF Len(out) = 0 THEN << >> ELSE out[1] \o Flatten(Tail(out))

Broken(ob) == Fld(ob, "err")

\* every molecule's atom-resolved energy is the model energy; padding is zero
EnergyOk(call, ob) ==
  ~Defined(call) \/
  LET rows == Rows(call, ob.energy)
      n(m) == Len(call.mols[m].z)
  IN /\ ~Broken(ob)
     /\ Len(rows) = Len(call.mols)
     /\ \A m \in 1..Len(rows) :
          LET ctx == Context(call, m)
              e == Force([t \in 1..Len(CallTerms(call)) |-> TermEnergy(CallTerms(call)[t], ctx)])
          IN RowOk(rows[m], e, n(m), call.dtype, ctx.sharp) /\ PadOk(rows[m], n(m))
=============================================================================
