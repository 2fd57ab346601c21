------------------------------ MODULE ConfC07 ------------------------------
(* calls: 1 original, 2 translated, 3 rotated, 4 reflected, 5 relabelled: its atom k is perm[k],
   6 all of them in one batch *)
EXTENDS Conform, Props
Scale(v) == RMaxAbs(v)
SameQ(a, b, rel) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i], (rel ** Scale(a)) ++ (rel // 10))
SameV(a, b, rel) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i], (rel ** Scale(a)) ++ R("1e-18"))
PermV(a, pm) == [k \in 1..Len(a) |-> a[pm[k]]]
SameM(a, b, rel) == \A i \in 1..Len(a) : SameV(a[i], b[i], rel)
PermM(a, pm) == [k \in 1..Len(a) |-> PermV(a[pm[k]], pm)]
AnyBroken(r) == \E c \in 1..Len(r.calls) : Broken(r.obs[c])
Names == <<"original", "translation", "rotation", "reflection", "relabelling">>
\* a distance within rounding of a cutoff may fall on either side once it is rotated
Edgy(call) ==
  LET sys == MolSys(call, 1)
      d == Distances(sys)
      cut == CallCut(call)
  IN \E i, j \in 1..N(sys) : i # j /\ \E c \in {cut.disp2, cut.disp3, cut.cn, cut.cn_eeq} :
        RClose(d[i][j], c, R("1e-9"))
EnergyJudge(r) ==
  LET sharp == Context(r.calls[1], 1).sharp
      rel == IF sharp THEN R("1e-10") ELSE R("1e-6")
      e(c) == r.obs[c].energy
  IN IF ~Defined(r.calls[1]) \/ Edgy(r.calls[1]) THEN {}
     ELSE IF AnyBroken(r) THEN {"error"}
     ELSE {Names[c] : c \in {x \in 2..4 : ~SameV(e(1), e(x), rel)}}
          \cup (IF SameV(PermV(e(1), r.perm), e(5), rel) THEN {} ELSE {"relabelling"})
          \cup UNION {IF EnergyOk(r.calls[c], r.obs[c]) THEN {} ELSE {"energy"} : c \in {1, 5}}
          \cup {"batch-" \o Names[c] : c \in {x \in 1..5 : ~SameV(e(x), e(6)[x], rel)}}
PropsJ(r) ==
  LET sharp == PropsOf(r.calls[1], 1).sharp
      rel == IF sharp THEN R("1e-10") ELSE R("1e-6")
      o == r.obs
  IN IF ~PropsDefined(r.calls[1], 1) \/ Edgy(r.calls[1]) THEN {}
     ELSE IF AnyBroken(r) THEN {"error"}
     ELSE {Names[c] : c \in {x \in 2..4 : ~(SameQ(o[1].cn, o[x].cn, rel) /\ SameQ(o[1].q, o[x].q, rel)
                                            /\ SameV(o[1].alpha, o[x].alpha, rel) /\ SameM(o[1].c6, o[x].c6, rel))}}
          \cup (IF /\ SameQ(PermV(o[1].cn, r.perm), o[5].cn, rel) /\ SameQ(PermV(o[1].q, r.perm), o[5].q, rel)
                   /\ SameV(PermV(o[1].alpha, r.perm), o[5].alpha, rel) /\ SameM(PermM(o[1].c6, r.perm), o[5].c6, rel)
                THEN {} ELSE {"relabelling"})
          \cup {"batch-" \o Names[c] : c \in {x \in 1..5 : ~(SameQ(o[x].cn, o[6].cn[x], rel) /\ SameQ(o[x].q, o[6].q[x], rel)
                                            /\ SameV(o[x].alpha, o[6].alpha[x], rel) /\ SameM(o[x].c6, o[6].c6[x], rel))}}
CJudge(r) == IF r.calls[1].api = "props" THEN PropsJ(r) ELSE EnergyJudge(r)
============================================================================
