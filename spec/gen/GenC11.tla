------------------------------- MODULE GenC11 -------------------------------
(* Every method, every functional of every table and some that are in none, every variant of either
   table and some that are in none, with and without the literature reference, in several spellings.
   The caller scribbles over every returned set before asking again. *)
EXTENDS Params, Integers, TLC
VARIABLES method, func, phase
vars == <<method, func, phase>>
Names(m) == {PTab[m].functionals[k][1] : k \in 1..Len(PTab[m].functionals)}
Funcs == Names("d3") \cup Names("d4") \cup {None, "default", "nosuch", "", "pbe-", "bj", "pbe ", " pbe", "b3-lyp", "b3_lyp", "b3lyp/def2", "pb", "pbe00", "none", "null", "d4", "b3lyp-d4", "*", "pbe.bj-eeq-atm", "definition"}
VarsOf(m) == {PTab[m].defaults[k][1] : k \in 1..Len(PTab[m].defaults)}
             \cup UNION {{PTab[m].functionals[k][2][j][1] : j \in 1..Len(PTab[m].functionals[k][2])} : k \in 1..Len(PTab[m].functionals)}
AllVars == VarsOf("d3") \cup VarsOf("d4")
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
VarSeq == Force(<<None>> \o SeqOf(AllVars) \o <<"nosuch", "default">>)
Cases == <<"lower", "upper", "title", "swap">>
Op(m, f, v, doi, c, as) == [method |-> m, func |-> f, var |-> v, doi |-> doi, case |-> c, as |-> as]
\* one functional: the variants in turn, each twice (the second time after scribbling over the first answer)
Ops(m, f) ==
  LET n == Len(VarSeq)
      c(k) == Cases[1 + (k % 4)]
      as(k) == IF k % 3 = 0 THEN "enum" ELSE "str"
  IN [k \in 1..(4 * n) |-> Op(m, f, VarSeq[1 + ((k - 1) % n)], (k - 1) \div n \in {1, 2}, c(k + (k \div n)), IF m = "d2" THEN "str" ELSE as(k))]
Init == method \in {"d3", "d4", "d5", "d2"} /\ func \in Funcs /\ phase = "ask"
Ask == /\ phase = "ask"
       /\ Emit(IOEnv.OUT, [id |-> <<method, func>>, kind |-> "lookup", ops |-> Ops(method, func)])
       /\ phase' = "done" /\ UNCHANGED <<method, func>>
Next == Ask
Spec == Init /\ [][Next]_vars
=============================================================================
