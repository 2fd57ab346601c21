------------------------------- MODULE GenC04 -------------------------------
(* Reference weights: every element at many coordination numbers and charges. *)
EXTENDS WGen
GFinish(s, ms) == [kind |-> "weights", call |-> WCall(s, ms)]
=============================================================================
