----------------------------- MODULE GenC11use ------------------------------
(* Every tabulated set that is complete for its scheme, looked up and handed to an energy evaluation as it
   is, with or without the literature reference. *)
EXTENDS Families
LOCAL T == INSTANCE Params
RECURSIVE Entries(_, _)
Entries(m, k) ==
  IF k > Len(T!PTab[m].functionals) THEN << >>
  ELSE LET f == T!PTab[m].functionals[k]
       IN [j \in 1..Len(f[2]) |-> [method |-> m, func |-> f[1], var |-> f[2][j][1], entry |-> f[2][j][2]]] \o Entries(m, k + 1)
Keys(e) == {e.entry[k][1] : k \in 1..Len(e.entry)}
Scheme(e) == CASE e.method = "d4" -> "d4" [] e.var \in {"bj", "bjm"} -> "bj" [] e.var = "zero" -> "zero" [] e.var = "zerom" -> "mzero" [] OTHER -> "op"
Complete(e) == CASE Scheme(e) \in {"d4", "bj"} -> {"a1", "a2"} \subseteq Keys(e)
                 [] Scheme(e) = "zero" -> {"rs6", "rs8"} \subseteq Keys(e)
                 [] Scheme(e) = "mzero" -> {"rs6", "rs8", "bet"} \subseteq Keys(e)
                 [] OTHER -> {"a1", "a2", "bet"} \subseteq Keys(e)
All == Force(SelectSeq(Entries("d3", 1) \o Entries("d4", 1), Complete))
GNMol(s) == 1
GSize(s, m) == PR(<<"n", s>>, 2, 4)
GElem(s, m, k) == IF k = 1 THEN SweepZ(s) ELSE AnyZ(<<"z", s, k>>)
GStyle(s, m) == PS(<<"st", s>>, <<"tight", "grid", "loose">>)
Fine == 100000000
GFinish(s, ms) ==
  LET e == All[1 + ((s - 1) % Len(All))]
      sch == Scheme(e)
      api == CASE sch = "d4" -> PS(<<"api", s>>, <<"dftd4", "dftd4", "DispD4", "DispD4Exact">>)
               [] sch = "bj" -> "DispD3BJ" [] sch = "zero" -> "DispD3Zero" [] OTHER -> "Disp"
      p == [k \in Keys(e) \ T!Textual |-> RRound(Fine ** T!At1(e.entry, k))]
  IN [kind |-> "calls", doi |-> s % 2 = 0,
      calls |-> <<[api |-> api, mols |-> ms, layout |-> "single", dtype |-> "float64", chg |-> <<Charge(<<"tq", s>>)>>, p |-> p, pden |-> Fine,
                   terms |-> IF api = "Disp" THEN <<Two(sch, FALSE), Atm("atm-approx-bj")>> ELSE TermsOf(api),
                   ptab |-> [method |-> e.method, func |-> e.func, var |-> e.var, doi |-> s % 2 = 0, case |-> PS(<<"cs", s>>, <<"lower", "upper">>)]]>>]
=============================================================================
