------------------------------- MODULE GenC12 -------------------------------
(* Histories of container operations: all short ones (breadth first) or long walks (by the oracle). *)
EXTENDS Containers, R64, Integers, IOUtils
VARIABLES boxes, hist, walk, phase
vars == <<boxes, hist, walk, phase>>
Seed == atoi(IOEnv.VSEED)
NScen == atoi(IOEnv.NSCEN)      \* number of walks; 0: all histories
Depth == atoi(IOEnv.DEPTH)
NTerm == atoi(IOEnv.NTERM)
P(key, n) == Pick(Seed, key, n)
C == 1..2
As == {"fresh", "shared"}
OpsOn(as) ==
  {[op |-> "new", c |-> c, cls |-> Classes[k]] : c \in C, k \in 1..Len(Classes)}
  \cup {[op |-> o, c |-> c, t |-> t, as |-> a] : o \in {"register", "deregister"}, c \in C, t \in 1..NTerm, a \in as}
  \cup {[op |-> "copy", c |-> c, to |-> 3 - c] : c \in C}
Mol(k) == CASE k % 3 = 0 -> [z |-> <<8, 1, 1>>, pos |-> <<<<0, 0, 0>>, <<110, 20, 0>>, <<-30, 105, 10>>>>, den |-> 64]
            [] k % 3 = 1 -> [z |-> <<26, 17, 6>>, pos |-> <<<<0, 0, 0>>, <<250, 20, 0>>, <<-60, 205, 110>>>>, den |-> 64]
            [] OTHER -> [z |-> <<53, 14, 9, 1>>, pos |-> <<<<0, 0, 0>>, <<250, 20, 0>>, <<-60, 205, 110>>, <<90, -120, -60>>>>, den |-> 64]
Batched(k) == k % 4 = 3
Call(k) == (IF Batched(k) THEN [pad |-> k % 3] ELSE << >>)
           @@ [mols |-> IF Batched(k) THEN <<Mol(k), Mol(k + 1)>> ELSE <<Mol(k)>>, layout |-> IF Batched(k) THEN "batch" ELSE "single",
            dtype |-> "float64", chg |-> IF Batched(k) THEN <<0, 4>> ELSE <<IF k % 2 = 0 THEN 0 ELSE 4>>, model |-> IF k % 5 = 4 THEN "d4s" ELSE "d4",
            p |-> [s6 |-> 1024, s8 |-> 900, s9 |-> 1024, a1 |-> 400, a2 |-> 5000, rs6 |-> 1100, rs8 |-> 1000, bet |-> 60, alp |-> 14336]]
Starts == IF NScen > 0 THEN {<<Absent, Absent>>} ELSE {<<Absent, Absent>>, <<<<1, 3>>, <<2, 6>>>>, << << >>, <<1, 1>>>>}
Init == /\ walk \in 1..(IF NScen > 0 THEN NScen ELSE 1)
        /\ boxes = <<Absent, Absent>> /\ hist = << >> /\ phase = "run"
Do(o) == CanDo(boxes, o) /\ boxes' = Apply(boxes, o) /\ hist' = Append(hist, o) /\ UNCHANGED <<walk, phase>>
\* breadth first: every operation; the first two construct the containers
Prefix == <<[op |-> "new", c |-> 1, cls |-> "DispD4"], [op |-> "new", c |-> 2, cls |-> "Disp"]>>
StepAll == NScen = 0 /\ phase = "run" /\ Len(hist) < Depth /\ \E o \in OpsOn({"shared"}) : Do(o)
StepWalk ==
  /\ NScen > 0 /\ phase = "run" /\ Len(hist) < Depth
  /\ LET k == Len(hist)
         c == 1 + P(<<"c", walk, k>>, 2)
         v == P(<<"v", walk, k>>, 12)
         t == 1 + P(<<"t", walk, k>>, NTerm)
         held == boxes[c]
         ht == IF held # Absent /\ Len(held) > 0 THEN held[1 + P(<<"h", walk, k>>, Len(held))] ELSE t
         as == IF P(<<"as", walk, k>>, 2) = 0 THEN "fresh" ELSE "shared"
         o == CASE boxes[c] = Absent \/ v = 0 -> [op |-> "new", c |-> c, cls |-> Classes[1 + P(<<"k", walk, k>>, Len(Classes))]]
                [] v = 1 -> [op |-> "copy", c |-> c, to |-> 3 - c]
                [] v \in 2..6 -> [op |-> "register", c |-> c, t |-> t, as |-> as]
                [] v \in 7..9 -> [op |-> "deregister", c |-> c, t |-> ht, as |-> as]
                [] OTHER -> [op |-> "deregister", c |-> c, t |-> t, as |-> as]
     IN Do(o)
Code(o) == (CASE o.op = "new" -> "n" \o o.cls [] o.op = "copy" -> "c" [] o.op = "register" -> "r" \o ToString(o.t) [] OTHER -> "d" \o ToString(o.t)) \o ToString(o.c)
RECURSIVE CodeOf(_)
CodeOf(h) == IF h = << >> THEN "" ELSE Code(h[1]) \o "-" \o CodeOf(Tail(h))
Ended == Len(hist) = Depth
Issue == /\ phase = "run" /\ Ended
         /\ Emit(IOEnv.OUT, [id |-> IF NScen > 0 THEN <<"walk", walk>> ELSE <<"all", CodeOf(hist)>>, kind |-> "boxes", call |-> Call(walk), ops |-> hist])
         /\ phase' = "done" /\ UNCHANGED <<boxes, hist, walk>>
Next == StepAll \/ StepWalk \/ Issue
Spec == Init /\ [][Next]_vars
(* the machine's own properties *)
TypeOK == \A c \in C : boxes[c] = Absent \/ \A k \in 1..Len(boxes[c]) : boxes[c][k] \in 1..Len(Pool)
\* an operation on one container never changes another
Isolated == [][\A c \in C : boxes'[c] # boxes[c] =>
                 LET o == hist'[Len(hist')] IN IF o.op = "copy" THEN o.to = c ELSE o.c = c]_vars
=============================================================================
