------------------------------ MODULE ConfC16 ------------------------------
(* A damping object asked directly.  A parameter may be given, left out or passed as None; s6, s9, rs9
   and alp have defaults that only None removes. *)
EXTENDS Conform
Rec(r) == [k \in DOMAIN r.p |-> Num(r.p[k], K)]
None(r, k) == \E i \in 1..Len(r.nones) : r.nones[i] = k
Off(r) ==
  CASE r.order = 6 -> None(r, "s6") /\ ~Has(r.p, "rs6")
    [] r.order = 8 -> ~Has(r.p, "s8") /\ ~Has(r.p, "rs8")
    [] r.order = 9 -> None(r, "s9") /\ None(r, "rs9")
    [] r.order = 10 -> ~Has(r.p, "s10")
    [] OTHER -> FALSE
Declared(s, n) == n \in Orders(s)
Missing(r) ==
  \/ ~(Needs(r.scheme, r.order) \subseteq DOMAIN r.p)
  \/ UsesVdW(r.scheme) /\ None(r, "alp")
  \/ r.scheme = "zero" /\ r.order = 9 /\ None(r, "rs9")
BadOrder(r) == r.scheme # "rational" /\ r.order \notin Orders(r.scheme)
\* the expected outcome: "value" or the admissible errors
Errors(r) ==
  IF Off(r) THEN {}
  ELSE IF BadOrder(r) THEN IF ~None(r, "alp") /\ (r.scheme = "zero" \/ Has(r.p, "bet")) /\ (r.scheme # "op" \/ {"a1", "a2"} \subseteq DOMAIN r.p)
                           THEN {"ValueError"} ELSE {"ValueError", "TypeError", "AssertionError"}
  ELSE IF Missing(r) THEN IF Declared(r.scheme, r.order) THEN {"TypeError"} ELSE {"TypeError", "AssertionError", "ValueError"}
  ELSE {}
DampAny(r, x, y) ==      \* rational damping accepts every order
  LET p == Rec(r)
  IN CASE r.scheme = "rational" -> DampRational(x, y, r.order, p) [] r.scheme = "zero" -> DampZero(x, y, r.order, p)
       [] r.scheme = "mzero" -> DampMZero(x, y, r.order, p) [] OTHER -> DampOP(x, y, r.order, p)
Value(r, i) ==
  LET x == Num(r.dist[i], 64)
      t == DampAny(r, x, Num(r.rad[i], 64))
  IN IF Off(r) THEN Zero ELSE IF r.only THEN t ** (x ^^ r.order) ELSE t
Factor(r, i) == IF r.only THEN R(0) ++ r.obs.values[i] ELSE r.obs.values[i] ** (Num(r.dist[i], 64) ^^ r.order)
\* in single precision a damping factor below the smallest representable number may come out as zero
Under(r, i) == R("1e-30") ++ (IF r.only THEN R("1e-36") ELSE R("1e-36") // (Num(r.dist[i], 64) ^^ r.order))
CJudge(r) ==
  LET e == Errors(r)
  IN IF e # {} THEN IF Broken(r.obs) /\ r.obs.err \in e THEN {} ELSE {"not-refused"}
     ELSE IF Broken(r.obs) THEN {"error"}
     ELSE (IF \A i \in 1..Len(r.dist) : RClose(r.obs.values[i], Value(r, i), IF r.dtype = "float64" THEN R("1e-11") ** RAbs(Value(r, i)) ELSE (R("1e-4") ** RAbs(Value(r, i))) ++ Under(r, i)) THEN {} ELSE {"value"})
          \* between complete damping and none
          \cup (IF \A i \in 1..Len(r.dist) : RLeq(0, Factor(r, i)) /\ RLeq(Factor(r, i), IF r.dtype = "float64" THEN R("1.000000001") ELSE R("1.0001")) THEN {} ELSE {"range"})
============================================================================
