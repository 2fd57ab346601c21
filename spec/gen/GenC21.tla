------------------------------- MODULE GenC21 -------------------------------
(* Longer histories over several kinds of objects and arbitrary molecules. *)
EXTENDS Families, Conversions, ConvGen
Batch(s) == s % 4 = 1
GNMol(s) == IF Batch(s) THEN PR(<<"nm", s>>, 1, 2) ELSE 1
GSize(s, m) == PS(<<"n", s, m>>, <<1, 2, 3, 3, 4>>)
Gfn2(s) == P(<<"rq", s>>, 4) = 0
GElem(s, m, k) == IF Gfn2(s) THEN PR(<<"z", s, m, k>>, 1, 86) ELSE IF k = 1 THEN SweepZ(s) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "grid", "loose", "loose", "wide">>)
One1(c, k, v) == IF c THEN [x \in {k} |-> v] ELSE << >>
Opts(s, md) == One1(Gfn2(s), "refq", "gfn2") @@ One1(P(<<"ga", s>>, 2) = 0, "ga", PR(<<"gav", s>>, 2048, 4096))
           @@ One1(P(<<"gc", s>>, 2) = 0, "gc", PR(<<"gcv", s>>, 1024, 3000))
           @@ One1(md = "d4" /\ P(<<"wf", s>>, 2) = 0, "wf", PR(<<"wfv", s>>, 4096, 8192))
           @@ One1(md = "d4s" /\ P(<<"wfk", s>>, 2) = 0, "wfk", PR(<<"wfkv", s>>, 1, 9))
           @@ One1(P(<<"rc6", s>>, 3) = 0, "rc6", PR(<<"rc6v", s>>, 1, 11))
Kind(s, k) ==
  LET v == P(<<"kind", s, k>>, 8)
      md == PS(<<"md", s, k>>, <<"d4", "d4", "d4s">>)
      cls == PS(<<"cls", s, k>>, <<"DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero">>)
      o == Opts(s, md)
  IN CASE v \in 0..2 -> Model1(md, o)
       [] v \in 3..4 -> Box1(cls, md, "key", One1(P(<<"cf", s>>, 2) = 0, "cnf", PS(<<"cnf", s>>, <<"d3", "d4exp", "d4pow">>)) @@ [opt |-> o])
       [] v = 5 -> Box1(cls, md, "inst", [opt |-> o])
       [] v = 6 -> Term1(PR(<<"tm", s, k>>, 1, 6))
       [] v = 7 -> Cut1([disp2 |-> PR(<<"c2", s>>, 64, 900), disp3 |-> PR(<<"c3", s>>, 64, 900), cn_eeq |-> 64 * PR(<<"ce", s>>, 2, 30)])
Target(key) == PS(key, <<"float32", "float64", "float32", "float64", "float32", "float64", "int64">>)
RECURSIVE Hist(_, _, _, _)
Hist(s, kinds, objs, h) ==
  IF Len(h) = 7 THEN h
  ELSE LET k == Len(h)
           v == P(<<"v", s, k>>, 9)
           o1 == 1 + P(<<"o", s, k>>, Len(objs) + 1)
           ob == IF o1 > Len(objs) THEN Len(objs) ELSE o1
           o == IF k = 0 \/ (v = 0 /\ Len(objs) < 4) THEN [op |-> "new", kind |-> PR(<<"nk", s, k>>, 1, Len(kinds)), dtype |-> PS(<<"nd", s, k>>, <<"float64", "float64", "float32">>)]
                ELSE IF v \in {1, 2} /\ ConvCan(kinds, objs, [op |-> "register", o |-> ob]) THEN [op |-> "register", o |-> ob]
                ELSE IF v = 8 THEN [op |-> "mix", o |-> ob]
                ELSE LET t == Target(<<"t", s, k>>) IN [op |-> "convert", o |-> ob, dtype |-> t, via |-> PS(<<"via", s, k>>, <<"type", "to", "tokw">>)]
       IN Hist(s, kinds, ConvApply(kinds, objs, o), Append(h, o))
GFinish(s, ms) ==
  LET kinds == [k \in 1..2 |-> Kind(s, k)]
      base == [mols |-> ms, layout |-> IF Batch(s) THEN "batch" ELSE "single", chg |-> [m \in 1..Len(ms) |-> Charge(<<"tq", s, m>>)],
               p |-> RationalP(<<"p", s>>) @@ [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300)]]
  IN [kind |-> "convert", base |-> base, kinds |-> kinds, ops |-> Hist(s, kinds, << >>, << >>)]
=============================================================================
