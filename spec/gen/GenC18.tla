------------------------------- MODULE GenC18 -------------------------------
(* Reference weights together with their derivatives. *)
EXTENDS WGen
Flags(s) == PS(<<"fl", s>>, IF Model(s) = "d4" THEN <<<<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>>> ELSE <<<<TRUE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>>>)
GFinish(s, ms) == [kind |-> "dweights", call |-> WCall(s, ms), dq |-> Sweep(s) \/ Flags(s)[1], dcn |-> ~Sweep(s) /\ Flags(s)[2]]
=============================================================================
