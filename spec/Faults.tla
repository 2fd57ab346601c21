------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Malformed calls and the error each has to raise.  A fault record is     *)
(* [what, how]:                                                            *)
(*   what = "positions", "q", "r4r2", "rcov", "rvdw": the supplied tensor  *)
(*          is deformed as how says                                        *)
(*   what = "model", "refq": how is the unknown name                       *)
(*   what = "param": how is the sequence of parameters left out            *)
(*   what = "order": a tenth-order coefficient for a scheme without one    *)
(*   what = "novdw": the pair energy of scheme how without radii           *)
(*   what = "radius": a damping function asking for unknown radii          *)
(*   what = "noterm": charges although no term uses them                   *)
(***************************************************************************)
EXTENDS Calls
Shaped == {"positions", "q", "r4r2", "rcov", "rvdw"}
TwoTerms(call) == {t \in 1..Len(CallTerms(call)) : CallTerms(call)[t].kind = "two"}
\* the error of one damping request, or "none"
DampError(scheme, n, p) ==
  IF SwitchedOff(n, p) THEN "none"
  ELSE IF n \notin Orders(scheme) THEN "ValueError"
  ELSE IF Needs(scheme, n) \subseteq DOMAIN p THEN "none" ELSE "TypeError"
PairError(scheme, p) ==
  IF DampError(scheme, 6, p) # "none" THEN DampError(scheme, 6, p)
  ELSE IF DampError(scheme, 8, p) # "none" THEN DampError(scheme, 8, p)
  ELSE IF Has(p, "s10") THEN DampError(scheme, 10, p) ELSE "none"
ParamError(call) ==
  LET e == {PairError(CallTerms(call)[t].damp, call.p) : t \in TwoTerms(call)} \ {"none"}
  IN IF e = {} THEN "none" ELSE CHOOSE x \in e : TRUE
Expected(call) ==
  LET f == call.fault
  IN CASE f.what \in Shaped -> "ValueError"
       [] f.what \in {"model", "refq"} -> "ValueError"
       [] f.what = "radius" -> "ValueError"
       [] f.what = "novdw" -> IF UsesVdW(f.how) THEN "ValueError" ELSE PairError(f.how, call.p)
       [] f.what = "noterm" -> "RuntimeError"
       [] f.what \in {"param", "order"} -> ParamError(call)
=============================================================================
