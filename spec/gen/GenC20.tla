------------------------------- MODULE GenC20 -------------------------------
(* One calculation written in every equivalent way; call 1 is the reference. *)
EXTENDS Families
Batch(s) == s % 4 = 1
GNMol(s) == IF Batch(s) THEN PR(<<"nm", s>>, 1, 3) ELSE 1
GSize(s, m) == IF s % 240 = 37 /\ m = 1 THEN PR(<<"n", s>>, 60, 72) ELSE IF s % 60 = 29 /\ m = 1 THEN PR(<<"n", s>>, 12, 34) ELSE PS(<<"n", s, m>>, <<1, 2, 2, 3, 3, 4, 4, 5>>)
Family(s) == PS(<<"fam", s>>, <<"D4", "D4", "D4", "D4Exact", "D3BJ", "D3Zero", "props", "debug">>)
Gfn2(s) == Family(s) # "props" /\ P(<<"rq", s>>, 8) = 0
GElem(s, m, k) == IF Gfn2(s) THEN PR(<<"z", s, m, k>>, 1, 86) ELSE IF k = 1 THEN SweepZ(s) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "grid", "loose", "loose", "wide">>)
UsesQ(s) == Family(s) \in {"D4", "D4Exact", "debug"}
Model(s) == IF Family(s) = "debug" THEN "d4" ELSE PS(<<"md", s>>, <<"d4", "d4", "d4s">>)
Yes(s, k, n) == P(<<"yes", k, s>>, n) = 0
One1(c, k, v) == IF c THEN [x \in {k} |-> v] ELSE << >>
Opts(s) == One1(Gfn2(s), "refq", "gfn2") @@ One1(Yes(s, "ga", 2), "ga", PS(<<"gav", s>>, <<2048, 2500, 4096>>))
           @@ One1(Yes(s, "gc", 2), "gc", PS(<<"gcv", s>>, <<1024, 1500, 3000>>))
           @@ One1(Model(s) = "d4" /\ Family(s) # "debug" /\ Yes(s, "wf", 2), "wf", PS(<<"wfv", s>>, <<4096, 5000, 8192>>))
HasOpt(s) == Gfn2(s) \/ Yes(s, "opt", 4)
Spell(s) == IF Model(s) = "d4" THEN "D4" ELSE PS(<<"spell", s>>, <<"D4S", "d4S", "D4s">>)
Cls(s) == CASE Family(s) = "D4" -> "DispD4" [] Family(s) = "D4Exact" -> "DispD4Exact" [] Family(s) = "D3BJ" -> "DispD3BJ"
            [] Family(s) = "D3Zero" -> "DispD3Zero" [] OTHER -> "DispD4"
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
GFinish(s, ms) ==
  LET L == Len(ms)
      n(m) == Len(ms[m].z)
      terms == TermsOf(Cls(s))
      base == [mols |-> FarOff(s, ms), layout |-> IF Batch(s) THEN "batch" ELSE "single", dtype |-> "float64",
               chg |-> [m \in 1..L |-> 4 * PR(<<"tq", s, m>>, -1, 1)], terms |-> terms]
      en == base @@ [model |-> Model(s),
               p |-> VariedP(<<"p", s>>) @@ [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300)]]
            @@ One1(HasOpt(s), "opt", Opts(s))
            @@ One1(Yes(s, "cut", 4), "cut", [disp2 |-> 64 * PR(<<"c2", s>>, 3, 30), disp3 |-> 64 * PR(<<"c3", s>>, 3, 30), cn_eeq |-> 64 * PR(<<"ce", s>>, 3, 25)])
            @@ One1(Yes(s, "cnf", 4), "cnf", PS(<<"cnfv", s>>, <<"d4exp", "d3", "d4pow">>))
            @@ One1(UsesQ(s) /\ Yes(s, "q", 4), "q", [m \in 1..L |-> [i \in 1..n(m) |-> QVal(<<"q", s>>, m, i, n(m))]])
            @@ One1(Yes(s, "r4", 4), "r4r2", [m \in 1..L |-> [i \in 1..n(m) |-> R4Val(<<"r4", s>>, m, i)]])
      safe == IF Family(s) = "D3Zero" THEN [en EXCEPT !.p = [x \in DOMAIN en.p \ {"s10"} |-> en.p[x]]] ELSE en
      w(r) == r @@ safe
      inst == [model_as |-> "inst"]
      key == IF HasOpt(s) THEN [api |-> "DispD4"] ELSE [api |-> "dftd4"]   \* options reach the function through an instance only
      forms == (IF Batch(s) THEN << >> ELSE <<[chg_as |-> "float"], [chg_as |-> "int"]>>) \o <<[p_as |-> "float"], [zint |-> "int32"]>>
      d4 == <<w(key), w([model_spelling |-> Spell(s)] @@ key), w([api |-> "dftd4"] @@ inst), w([api |-> "DispD4"]),
              w([api |-> "DispD4", model_spelling |-> Spell(s)]), w([api |-> "DispD4"] @@ inst), w([api |-> "Disp"]), w([api |-> "Disp"] @@ inst), w([api |-> "DispD4", ignored |-> TRUE] @@ inst),
              w([api |-> "Disp", terms |-> Rev(terms)]), w([api |-> "blocks"]), w([api |-> "blocks", as_matrix |-> TRUE])>>
            \o [i \in 1..Len(forms) |-> w(forms[i] @@ key)]
      cls == <<w([api |-> Cls(s)]), w([api |-> Cls(s), model_spelling |-> Spell(s)]), w([api |-> Cls(s), ignored |-> Yes(s, "ig", 2)] @@ inst), w([api |-> "Disp"]),
               w([api |-> "Disp", terms |-> Rev(terms)] @@ inst)>>
            \o [i \in 1..Len(forms) |-> w(forms[i] @@ [api |-> PS(<<"fc", s, i>>, <<Cls(s), "Disp">>)])]
      dbg == [model |-> "d4sdebug", model_as |-> "inst"]
      debug == <<w([api |-> "dftd4"] @@ inst), w([api |-> "dftd4"] @@ dbg), w([api |-> "DispD4"] @@ dbg), w([api |-> "blocks"] @@ dbg), w([api |-> "Disp"] @@ dbg)>>
               \o (IF Yes(s, "dex", 2) THEN <<w([api |-> "DispD4Exact"] @@ inst @@ [terms |-> TermsOf("DispD4Exact")]),
                                              w([api |-> "DispD4Exact"] @@ dbg @@ [terms |-> TermsOf("DispD4Exact")])>> ELSE << >>)
      pr == <<base @@ [api |-> "props"], base @@ [api |-> "blockprops"]>>
            \o (IF Batch(s) THEN << >> ELSE <<[chg_as |-> "float"] @@ base @@ [api |-> "props"], [chg_as |-> "int"] @@ base @@ [api |-> "props"]>>)
  IN [kind |-> "calls", family |-> Family(s),
      calls |-> CASE Family(s) = "D4" -> d4 [] Family(s) = "props" -> pr [] Family(s) = "debug" -> debug [] OTHER -> cls]
=============================================================================
