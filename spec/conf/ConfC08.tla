------------------------------ MODULE ConfC08 ------------------------------
EXTENDS Conform, Props
\* The coordination number obeys its own cutoff.
WithCN(call) == IF Fld(call, "cut") /\ Fld(call.cut, "cn") THEN Num(call.cut.cn, 64) ELSE R(30)
CNTerms(call, cncut) ==
  LET ctx == Context(call, 1)
      c == [ctx EXCEPT !.cn = CNgen(ctx.sys, ctx.d, cncut, "erf", TRUE)]
  IN Force([t \in 1..Len(CallTerms(call)) |-> TermEnergy(CallTerms(call)[t], c)])
CNOk(call, ob, cncut) == ~Broken(ob) /\ RowOk(ob.energy, CNTerms(call, cncut), Len(call.mols[1].z), call.dtype, TRUE)
CallJudge(call, ob) ==
  IF call.api = "props" THEN IF PropsDefined(call, 1) THEN IF Broken(ob) THEN {"error"} ELSE PropsJudge(call, ob, 1) ELSE {}
  ELSE IF Fld(call, "cut") /\ Fld(call.cut, "cn")
  THEN IF CNOk(call, ob, WithCN(call)) THEN {}
       ELSE IF CNOk(call, ob, R(30)) THEN {"cn-cutoff-ignored"} ELSE {"cn-cutoff"}
  ELSE IF EnergyOk(call, ob) THEN {} ELSE {"energy"}
ObjJudge(r) ==
  LET ok(k) == REq(r.obs[k], IF Fld(r.cut, k) THEN Num(r.cut[k], 64) ELSE DefCut[k])
  IN IF Broken(r.obs) THEN {"error"}
     ELSE {"cutoff-object-" \o k : k \in {x \in {"disp2", "disp3", "cn", "cn_eeq"} : ~ok(x)}}
PairJudge(call, ob) ==
  LET sys == MolSys(call, 1)
      c6 == Mat(2, 2, LAMBDA i, j : Num(call.c6[1][i][j], 1024))
      r4 == Vec(2, LAMBDA i : Num(call.r4r2[1][i], 1024))
      e == TwoBody(2, Distances(sys), c6, r4, c6, "rational", CallParam(call), CallCut(call).disp2)
  IN IF Broken(ob) THEN {"error"}
     ELSE IF VClose(ob.energy, e, 2, R("1e-11"), R("1e-30")) THEN {} ELSE {"energy"}
CJudge(r) ==
  CASE r.kind = "cutoff" -> ObjJudge(r)
    [] r.kind = "pair" -> PairJudge(r.call, r.obs)
    [] OTHER -> UNION {CallJudge(r.calls[c], r.obs[c]) : c \in 1..Len(r.calls)}
============================================================================
