------------------------------- MODULE GenC14 -------------------------------
(* Sessions over shared objects.  Scenario s: two or three systems, each with two contents. *)
EXTENDS Families, History
\* every sixteenth session is long, over many small systems
Long(s) == s % 16 = 11
NS(s) == IF Long(s) THEN 40 ELSE 2 + (s % 2)
NV == 2
SameShape(s) == s % 3 # 0
BatchOf(s) == s % 4 = 1 /\ ~Long(s)
MPV(s) == IF BatchOf(s) THEN 2 ELSE 1                \* molecules per content
GNMol(s) == NS(s) * NV * MPV(s)
\* molecule number of content v of system k, molecule j
MolIx(s, k, v, j) == ((k - 1) * NV + (v - 1)) * MPV(s) + j
SysOf(s, m) == 1 + ((m - 1) \div (NV * MPV(s)))
GSize(s, m) ==
  LET j == (m - 1) % MPV(s)
  IN IF Long(s) THEN PR(<<"n", s, SysOf(s, m)>>, 1, 3) ELSE IF SameShape(s) THEN PR(<<"n", s, j>>, 2, 4) ELSE PR(<<"n", s, SysOf(s, m), j>>, 1, 4)
SameZ(s) == s % 5 < 2 /\ ~Long(s)
\* systems of the same atoms in another order
SameSet(s) == s % 5 = 2 /\ SameShape(s) /\ ~Long(s)
GElem(s, m, k) == IF SameSet(s) THEN LET j == (m - 1) % MPV(s)
                                         z0 == PR(<<"n", s, j>>, 2, 4)
                                     IN AnyZ(<<"z", s, j, (k + (m - 1) \div MPV(s)) % z0>>)
                  ELSE IF SameZ(s) THEN AnyZ(<<"z", s, (m - 1) % MPV(s), k>>) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "grid", "loose">>)
NP == 2
ZP(key) == [rs6 |-> PR(<<key, "rs6">>, 700, 1300), rs8 |-> PR(<<key, "rs8">>, 700, 1300)]
Hows(s) ==
  LET md == PS(<<"md", s>>, <<"d4", "d4", "d4s">>)
      h(api, how) == [api |-> api, how |-> how, model |-> md, terms |-> TermsOf(api)]
  IN <<h("dftd4", "key"), h("dftd4", "inst"), h("DispD4", "box"),
       h(PS(<<"bx", s>>, <<"DispD4Exact", "DispD3BJ", "DispD3Zero">>), "box"), [h("DispD4", "boxi") EXCEPT !.model = "d4s"], h("blocks", "blocks")>>
\* optional orders come and go unless the session uses zero damping
Optional(s, r, k) ==
  CASE Hows(s)[4].api = "DispD3Zero" -> r
    [] k = 0 -> r @@ [s10 |-> 700]
    [] k = 1 -> [x \in DOMAIN r \ {"s8", "rs8"} |-> r[x]]
    [] k = 2 -> [x \in DOMAIN r \ {"s6", "s9"} |-> r[x]]
    [] OTHER -> r
PSet(s, p, v) == Optional(s, RationalP(<<"p", s, p, v>>) @@ ZP(<<"p", s, p, v>>), P(<<"po", s, p, v>>, 5))
                 @@ (IF (p + v) % 2 = 0 THEN [alp |-> PS(<<"alp", s, p, v>>, <<14336, 16384>>)] ELSE << >>)
\* two cutoff collections, each with two contents
Cuts(s) == <<<<[disp2 |-> PR(<<"c2", s>>, 150, 500), disp3 |-> PR(<<"c3", s>>, 150, 500)], [disp2 |-> PR(<<"c2x", s>>, 100, 400), disp3 |-> PR(<<"c3x", s>>, 100, 400), cn_eeq |-> 200]>>,
             <<[disp2 |-> 3000], [disp3 |-> 260]>>>>
UsesQ(s, h) == \E t \in 1..Len(Hows(s)[h].terms) : Hows(s)[h].terms[t].chg
Eval(s, key) ==
  LET h == PR(<<key, "h">>, 1, 6)
  IN [op |-> "energy", s |-> PR(<<key, "s">>, 1, NS(s)), p |-> PR(<<key, "p">>, 1, NP), h |-> h,
      c |-> P(<<key, "c">>, 3), useq |-> UsesQ(s, h) /\ P(<<key, "q">>, 3) = 0, user |-> P(<<key, "ur">>, 4) = 0, usev |-> P(<<key, "uv">>, 4) = 0,
      mode |-> PS(<<key, "mode">>, <<"plain", "plain", "plain", "nograd", "inference", "requires">>),
      temp |-> P(<<key, "tmp">>, 3) = 0,      \* copies that are dropped after the call
      f32 |-> h = 1 /\ P(<<key, "f">>, 3) = 0]
RECURSIVE Walk(_, _, _)
Len0(s) == IF Long(s) THEN 160 ELSE 14
Walk(s, ops, evals) ==
  LET k == Len(ops) + 1
      v == P(<<"v", s, k>>, 21)
      e == Eval(s, <<"e", s, k>>)
      o == CASE v \in 0..8 -> e
             [] v \in 9..10 -> [e EXCEPT !.op = "grad", !.mode = "plain", !.f32 = FALSE]
             [] v = 11 -> [op |-> "props", s |-> e.s]
             [] v = 12 -> [op |-> "weights", s |-> e.s, h |-> e.h, x |-> P(<<"wx", s, k>>, 3)]
             [] v \in 13..14 -> [op |-> "mutate", s |-> e.s, v |-> PR(<<"mv", s, k>>, 1, NV)]
             [] v = 15 -> [op |-> "setp", p |-> e.p, v |-> PR(<<"pv", s, k>>, 1, 2)]
             [] v = 16 /\ evals # << >> -> [op |-> "scribble", r |-> evals[1 + P(<<"sr", s, k>>, Len(evals))]]
             [] v = 17 -> [op |-> "default", dtype |-> PS(<<"dd", s, k>>, <<"float32", "float64">>)]
             [] v = 18 -> [op |-> "threads", jobs |-> [j \in 1..6 |-> Eval(s, <<"t", s, k, j>>)]]
             [] v = 19 -> [op |-> "setc", c |-> 1 + P(<<"cc", s, k>>, 2), v |-> PR(<<"cv", s, k>>, 1, 2)]
             [] OTHER -> e
  IN IF k > Len0(s) THEN ops
     ELSE Walk(s, Append(ops, o), IF o.op \in Evaluations THEN Append(evals, k) ELSE evals)
Content(s, ms, k, v) ==
  LET mm == [j \in 1..MPV(s) |-> ms[MolIx(s, k, v, j)]]
  IN [mols |-> mm, layout |-> IF BatchOf(s) THEN "batch" ELSE "single",
      dir |-> [j \in 1..MPV(s) |-> [i \in 1..Len(mm[j].z) |-> [x \in 1..3 |-> PR(<<"dir", s, k, v, j, i, x>>, -64, 64)]]],
      chg |-> [j \in 1..MPV(s) |-> Charge(<<"tq", s, k, v, j>>)],
      q |-> [j \in 1..MPV(s) |-> [i \in 1..Len(mm[j].z) |-> QVal(<<"q", s, k, v>>, j, i, Len(mm[j].z))]],
      r4r2 |-> [j \in 1..MPV(s) |-> [i \in 1..Len(mm[j].z) |-> R4Val(<<"r4", s, k, v>>, j, i)]],
      vdw |-> [j \in 1..MPV(s) |-> [i \in 1..Len(mm[j].z) |-> [l \in 1..Len(mm[j].z) |-> VdWVal(<<"vd", s, k, v>>, j, i, l)]]]]
\* two contents of a system have the same shape, so that they can be exchanged in place
Compatible(s, ms, k) == \A j \in 1..MPV(s) : Len(ms[MolIx(s, k, 1, j)].z) = Len(ms[MolIx(s, k, 2, j)].z)
GFinish(s, ms) ==
  [kind |-> "history", sparse |-> Long(s), hows |-> Hows(s), cuts |-> Cuts(s),
   systems |-> [k \in 1..NS(s) |-> [v \in 1..NV |-> Content(s, ms, k, v)]],
   params |-> [p \in 1..NP |-> [v \in 1..2 |-> PSet(s, p, v)]],
   ops |-> Walk(s, << >>, << >>)]
=============================================================================
