------------------------------ MODULE ConfC14 ------------------------------
(* Replays the recorded session through the machine of History: every result is the one the present
   contents demand, what was passed in is unchanged, earlier results stay as they were. *)
EXTENDS Props, History, IOUtils
VARIABLES rec, at, st, verdict
Trace == LoadLines(IOEnv.TRACE)
Rec == Trace[rec]
Init == rec \in 1..Len(Trace) /\ at = 0 /\ verdict = {} /\ st = HInit(Len(Trace[rec].systems), Len(Trace[rec].params), Len(Trace[rec].cuts))
Max2(a, b) == IF a > b THEN a ELSE b
Width(c) == IF c.layout = "single" THEN Len(c.mols[1].z)
            ELSE IF Len(c.mols) = 1 THEN Len(c.mols[1].z) ELSE Max2(Len(c.mols[1].z), Len(c.mols[2].z))
\* the tensors of system s as they have to be
WorldOk(r, s0, w) ==
  /\ \A s \in 1..Len(r.systems) :
       LET c == r.systems[s][s0.var[s]]
           z == IF c.layout = "single" THEN <<w.z[s]>> ELSE w.z[s]
           x == IF c.layout = "single" THEN <<w.pos[s]>> ELSE w.pos[s]
           q == IF c.layout = "single" THEN <<w.q[s]>> ELSE w.q[s]
           h == IF c.layout = "single" THEN <<w.chg[s]>> ELSE w.chg[s]
       IN \A m \in 1..Len(c.mols) :
            /\ REq(h[m], Num(c.chg[m], 4))
            /\ Len(z[m]) = Width(c)
            /\ \A i \in 1..Width(c) :
                 IF i <= Len(c.mols[m].z)
                 THEN /\ z[m][i] = c.mols[m].z[i] /\ REq(q[m][i], Num(c.q[m][i], K))
                      /\ \A k \in 1..3 : REq(x[m][i][k], Num(c.mols[m].pos[i][k], 64))
                 ELSE z[m][i] = 0 /\ REq(q[m][i], 0) /\ \A k \in 1..3 : REq(x[m][i][k], 0)
  /\ \A s \in 1..Len(r.systems) :
       LET c == r.systems[s][s0.var[s]]
           rr == IF c.layout = "single" THEN <<w.r4r2[s]>> ELSE w.r4r2[s]
           vv == IF c.layout = "single" THEN <<w.vdw[s]>> ELSE w.vdw[s]
       IN "r4r2" \notin DOMAIN c
          \/ \A m \in 1..Len(c.mols) :
               LET n == Len(c.mols[m].z)
               IN \A i \in 1..Width(c) :
                    /\ REq(rr[m][i], IF i <= n THEN Num(c.r4r2[m][i], K) ELSE 0)
                    /\ \A j \in 1..Width(c) : REq(vv[m][i][j], IF i <= n /\ j <= n THEN Num(c.vdw[m][i][j], K) ELSE 0)
  /\ \A p \in 1..Len(r.params) :
       LET v == r.params[p][s0.par[p]]
       IN DOMAIN w.p[p] = DOMAIN v /\ \A k \in DOMAIN v : REq(w.p[p][k], Num(v[k], K))
  /\ \A c \in 1..Len(r.cuts) : \A k \in {"disp2", "disp3", "cn", "cn_eeq"} : REq(w.cut[c][k], CallCut([cut |-> r.cuts[c][s0.cut[c]]])[k])
EvalJudge(r, s0, o, ob) ==
  LET call == Meaning(r, s0, o)
  IN IF ~Defined(call) THEN {}
     ELSE IF Broken(ob) THEN {"error"}
     ELSE (IF EnergyOk(call, ob) THEN {} ELSE {"energy"})
          \cup (IF "intact" \in DOMAIN ob /\ ob.intact # "yes" THEN {"argument-changed"} ELSE {})
\* the derivative along the call's direction
GradJudge(r, s0, o, ob) ==
  LET call == Meaning(r, s0, o)
      L == Len(call.mols)
      ctx == [m \in 1..L |-> Context(call, m)]
      e(m) == Force([t \in 1..Len(CallTerms(call)) |-> TermEnergy(CallTerms(call)[t], ctx[m])])
      all(f(_), m) == LET em == e(m) IN RSum([t \in 1..Len(em) |-> RSum([i \in 1..Len(call.mols[m].z) |-> f(em[t][i])])])
      a(x) == RAbs(RD0(x)) ++ RAbs(RD1(x))
      d(x) == RD1(x)
      sharp == \A m \in 1..L : ctx[m].sharp
  IN IF ~Defined(call) \/ Broken(ob) THEN {}
     ELSE IF RClose(ob.first, RSum([m \in 1..L |-> all(d, m)]),
                    ((IF sharp THEN R("1e-8") ELSE R("1e-3")) ** RSum([m \in 1..L |-> all(a, m)])) ++ R("1e-18")) THEN {} ELSE {"gradient"}
PropJudge(r, s0, o, ob) ==
  LET c == r.systems[o.s][s0.var[o.s]]
      call == [layout |-> c.layout, dtype |-> "float64", mols |-> c.mols, chg |-> c.chg]
  IN IF \E m \in 1..Len(c.mols) : ~PropsDefined(call, m) THEN {}
     ELSE IF Broken(ob) THEN {"error"}
     ELSE UNION {PropsJudge(call, ob, m) : m \in 1..Len(c.mols)}
\* weights on the shared model instance: coordination number 1 + x/2 everywhere, the system's charges
WeightJudge(r, s0, o, ob) ==
  LET c == r.systems[o.s][s0.var[o.s]]
      call == [layout |-> c.layout, mols |-> c.mols, model |-> r.hows[o.h].model]
      t == Rows(call, ob.gw)
      cn == One ++ (R(o.x) // 2)
      ok(m) == LET n == Len(c.mols[m].z)
               IN \A i \in 1..n : \A j \in Partners(call, n, i) :
                    LET w == AtomWeights(call, m, i, j, cn, Num(c.q[m][i], K))
                    IN Unclear(call, m, i, j, cn) \/ \A f \in 1..NRef : RClose(At(call, t[m], i, j, f), w[f], (R("1e-9") ** RAbs(w[f])) ++ R("1e-14"))
  IN IF Broken(ob) THEN {"error"} ELSE IF \A m \in 1..Len(c.mols) : ok(m) THEN {} ELSE {"weights"}
RECURSIVE SameT(_, _, _)
SameT(a, b, d) == IF d = 0 THEN REq(a, b) ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameT(a[i], b[i], d - 1)
Depth(r, o) == IF r.systems[o.s][1].layout = "single" THEN 1 ELSE 2
\* at the end every result that was not overwritten still reads the same
KeptOk(r, k, gone) ==
  LET o == r.ops[k]
      ob == r.obs[k]
      f == r.final[k]
  IN o.op \notin Evaluations \/ k \in gone \/ Broken(ob)
     \/ (CASE o.op \in {"energy", "grad"} -> SameT(ob.energy, f.energy, Depth(r, o))
           [] o.op = "props" -> SameT(ob.cn, f.cn, Depth(r, o)) /\ SameT(ob.q, f.q, Depth(r, o)) /\ SameT(ob.alpha, f.alpha, Depth(r, o))
                                /\ SameT(ob.c6, f.c6, Depth(r, o) + 1)
           [] o.op = "weights" -> SameT(ob.gw, f.gw, Depth(r, o) + 1 + (IF r.hows[o.h].model = "d4" THEN 0 ELSE 1)))
Judge(r, k, s0, s1) ==
  LET o == r.ops[k]
      ob == r.obs[k]
  IN (CASE o.op = "energy" -> EvalJudge(r, s0, o, ob)
        [] o.op = "grad" -> EvalJudge(r, s0, o, ob) \cup GradJudge(r, s0, o, ob)
        [] o.op = "props" -> PropJudge(r, s0, o, ob)
        [] o.op = "weights" -> WeightJudge(r, s0, o, ob)
        [] o.op = "threads" -> UNION {UNION {EvalJudge(r, s0, o.jobs[j], ob.jobs[j][i]) : i \in 1..Len(ob.jobs[j])} : j \in 1..Len(o.jobs)}
        [] OTHER -> {})
     \cup (IF "world" \notin DOMAIN ob \/ WorldOk(r, s1, ob.world) THEN {} ELSE {"input-changed"})
     \cup (IF k = Len(r.ops) /\ \E i \in 1..k : ~KeptOk(r, i, s1.gone) THEN {"result-changed"} ELSE {})
Step ==
  /\ at < Len(Rec.ops) /\ verdict = {}
  /\ LET s1 == HApply(st, Rec.ops[at + 1])
         bad == Judge(Rec, at + 1, st, s1)
     IN st' = s1 /\ verdict' = bad /\ (bad # {} => Emit(IOEnv.FAILS, [id |-> Rec.id, bad |-> bad]))
  /\ at' = at + 1 /\ UNCHANGED rec
Next == Step
Conforms == verdict = {}
============================================================================
