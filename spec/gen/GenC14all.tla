----------------------------- MODULE GenC14all -----------------------------
(* All short sessions on two systems of equal shape. *)
EXTENDS History, R64, IOUtils, TLC
VARIABLES st, hist, phase
vars == <<st, hist, phase>>
Depth == atoi(IOEnv.DEPTH)
A == [z |-> <<8, 1, 1>>, pos |-> <<<<0, 0, 0>>, <<110, 20, 0>>, <<-30, 105, 10>>>>, den |-> 64]
A2 == [z |-> <<8, 1, 1>>, pos |-> <<<<0, 0, 0>>, <<150, -20, 5>>, <<-40, 135, 30>>>>, den |-> 64]
B == [z |-> <<26, 17, 6>>, pos |-> <<<<0, 0, 0>>, <<250, 20, 0>>, <<-60, 205, 110>>>>, den |-> 64]
B2 == [z |-> <<6, 26, 17>>, pos |-> <<<<0, 0, 0>>, <<250, 20, 0>>, <<-60, 205, 110>>>>, den |-> 64]
C(m, q, d) == [mols |-> <<m>>, layout |-> "single", chg |-> <<q>>, q |-> <<<<100, -50, d>>>>,
                 dir |-> <<<<<<3, -5, 8>>, <<d, 20, -30>>, <<0, 10, 1>>>>>>]
Systems == <<<<C(A, 0, 10), C(A2, 4, 200)>>, <<C(B, 0, -100), C(B2, -4, 40)>>>>
T4 == <<[kind |-> "two", damp |-> "rational", chg |-> TRUE], [kind |-> "atm-approx-bj", damp |-> "zero", chg |-> FALSE]>>
Hows == <<[api |-> "dftd4", how |-> "key", model |-> "d4", terms |-> T4],
          [api |-> "DispD4", how |-> "box", model |-> "d4s", terms |-> T4]>>
Params == <<<<[s6 |-> 1024, s8 |-> 900, a1 |-> 400, a2 |-> 5000], [s6 |-> 800, s8 |-> 1900, s9 |-> 512, a1 |-> 300, a2 |-> 4000]>>>>
Evals == {k \in 1..Len(hist) : hist[k].op \in Evaluations}
Ops == {[op |-> "energy", s |-> s, p |-> 1, h |-> h, c |-> c, useq |-> FALSE, f32 |-> FALSE, mode |-> IF h = c + 1 THEN "inference" ELSE "plain"] : s \in 1..2, h \in 1..2, c \in {0, 1}}
       \cup {[op |-> "energy", s |-> s, p |-> 1, h |-> 1, c |-> 0, useq |-> FALSE, f32 |-> TRUE, mode |-> "plain"] : s \in 1..2}
       \cup {[op |-> "grad", s |-> s, p |-> 1, h |-> 1, c |-> 0, useq |-> FALSE, f32 |-> FALSE, mode |-> "plain"] : s \in 1..2}
       \cup {[op |-> "props", s |-> s] : s \in {1}}
       \cup {[op |-> "mutate", s |-> s, v |-> 2] : s \in 1..2}
       \cup {[op |-> "setp", p |-> 1, v |-> 2], [op |-> "setc", c |-> 1, v |-> 2]}
       \cup {[op |-> "scribble", r |-> r] : r \in Evals}
       \cup {[op |-> "default", dtype |-> "float32"]}
Useful(o) == CASE o.op = "mutate" -> st.var[o.s] # o.v [] o.op = "setp" -> st.par[o.p] # o.v [] o.op = "setc" -> st.cut[o.c] # o.v
               [] o.op = "scribble" -> o.r \notin st.gone [] OTHER -> TRUE
Init == st = HInit(2, 1, 1) /\ hist = << >> /\ phase = "run"
Do == phase = "run" /\ Len(hist) < Depth /\ \E o \in Ops : Useful(o) /\ (Len(hist) = Depth - 1 => o.op \in Evaluations)
                                             /\ st' = HApply(st, o) /\ hist' = Append(hist, o) /\ UNCHANGED phase
Code(o) == CASE o.op = "energy" -> "e" \o ToString(o.s) \o ToString(o.h) \o ToString(o.c) \o (IF o.f32 THEN "f" ELSE "") [] o.op = "grad" -> "g" \o ToString(o.s) [] o.op = "props" -> "P" [] o.op = "mutate" -> "m" \o ToString(o.s)
             [] o.op = "setp" -> "p" [] o.op = "setc" -> "c" [] o.op = "scribble" -> "s" \o ToString(o.r) [] OTHER -> "d"
RECURSIVE CodeOf(_)
CodeOf(h) == IF h = << >> THEN "" ELSE Code(h[1]) \o "-" \o CodeOf(Tail(h))
Issue == /\ phase = "run" /\ Len(hist) = Depth
         /\ Emit(IOEnv.OUT, [id |-> <<"all", CodeOf(hist)>>, kind |-> "history", hows |-> Hows, cuts |-> <<<<[disp2 |-> 200, disp3 |-> 150], [disp2 |-> 140, disp3 |-> 120]>>>>,
                             systems |-> Systems, params |-> Params, ops |-> hist])
         /\ phase' = "done" /\ UNCHANGED <<st, hist>>
Next == Do \/ Issue
Spec == Init /\ [][Next]_vars
(* the machine's own properties: evaluations change nothing, and nothing comes back once overwritten *)
Pure == [][hist' # hist /\ hist'[Len(hist')].op \in Evaluations => st' = st]_vars
Gone == [][st.gone \subseteq st'.gone]_vars
=============================================================================
