-------------------------------- MODULE R64 --------------------------------
(***************************************************************************)
(* Real arithmetic for TLC.                                                *)
(*                                                                         *)
(* TLC has no reals, so this module declares the field operations, the     *)
(* elementary functions and the sums that the dispersion model needs; they *)
(* are given their meaning by the Java class R64 (java/R64.java), which    *)
(* represents a real by an IEEE double together with its first and second  *)
(* derivative along one direction (RVar seeds the direction).  The same    *)
(* specification text therefore denotes the energy and its exact           *)
(* directional derivatives.  Reals occur only inside expressions, never in *)
(* state variables.                                                        *)
(*                                                                         *)
(*    ++  sum   --  difference   **  product   //  quotient   ^^  power    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

R(x)          == CHOOSE r : TRUE   \* the real denoted by an integer or a decimal string
RVar(x, d)    == CHOOSE r : TRUE   \* x with derivative d along the direction
RJet(x, d, e) == CHOOSE r : TRUE   \* x with first and second derivative
RD0(x)        == CHOOSE r : TRUE   \* value only
RD1(x)        == CHOOSE r : TRUE   \* first directional derivative
RD2(x)        == CHOOSE r : TRUE   \* second directional derivative
x ++ y        == CHOOSE r : TRUE
x -- y        == CHOOSE r : TRUE
x ** y        == CHOOSE r : TRUE
x // y        == CHOOSE r : TRUE
x ^^ y        == CHOOSE r : TRUE
RNeg(x)       == CHOOSE r : TRUE
RSqrt(x)      == CHOOSE r : TRUE
RExp(x)       == CHOOSE r : TRUE
RLog(x)       == CHOOSE r : TRUE
RErf(x)       == CHOOSE r : TRUE
RAbs(x)       == CHOOSE r : TRUE
RLeq(x, y)    == CHOOSE b \in BOOLEAN : TRUE
RLt(x, y)     == CHOOSE b \in BOOLEAN : TRUE
REq(x, y)     == CHOOSE b \in BOOLEAN : TRUE
RFinite(x)    == CHOOSE b \in BOOLEAN : TRUE
RMax(x, y)    == CHOOSE r : TRUE
RMin(x, y)    == CHOOSE r : TRUE
RRound(x)     == CHOOSE i : TRUE   \* the nearest integer
RStr(x)       == CHOOSE s \in STRING : TRUE
RClose(x, y, tol) == CHOOSE b \in BOOLEAN : TRUE   \* both finite and |x-y| <= tol
RSum(s)       == CHOOSE r : TRUE   \* sum of a sequence
RSumAbs(s)    == CHOOSE r : TRUE
RMaxAbs(s)    == CHOOSE r : TRUE
RMaxOf(s)     == CHOOSE r : TRUE
RDot(s, t)    == CHOOSE r : TRUE
RDot3(s, t, u) == CHOOSE r : TRUE
RSolve(A, b)  == CHOOSE x : TRUE   \* the x with A x = b
RMinPivot(A)  == CHOOSE x : TRUE   \* smallest Cholesky pivot: A is positive definite iff it is positive
Force(f)      == f               \* f, evaluated once and for all
Pick(seed, key, n) == CHOOSE i \in 0..(n-1) : TRUE   \* the generator's oracle
Load(path)      == CHOOSE v : TRUE \* JSON file as a TLA+ value
LoadLines(path) == CHOOSE v : TRUE
Emit(path, v)   == CHOOSE b \in BOOLEAN : TRUE

Vec(n, f(_))    == Force([i \in 1..n |-> f(i)])
Mat(n, m, f(_, _)) == Force([i \in 1..n |-> Force([j \in 1..m |-> f(i, j)])])
Half == R("0.5")
Zero == R(0)
One  == R(1)
============================================================================
