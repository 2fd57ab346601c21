------------------------------- MODULE GenC19 -------------------------------
(* Linear scenarios: calls 1..U with one scale factor set to one and the others to zero, then calls with
   arbitrary factors, some of them absent.  Fragment scenarios: molecules one by one, then all of them in
   one system, further apart than every cutoff, in shuffled order. *)
EXTENDS Families
Frag(s) == s % 2 = 0
Batch(s) == ~Frag(s) /\ s % 8 = 1
GNMol(s) == IF Frag(s) THEN IF s % 40 = 6 THEN 6 ELSE PR(<<"nm", s>>, 2, 3) ELSE IF Batch(s) THEN 2 ELSE 1
GSize(s, m) == IF s % 240 = 37 /\ m = 1 THEN PR(<<"n", s>>, 36, 68) ELSE IF s % 40 = 16 THEN 14 ELSE PS(<<"n", s, m>>, <<1, 2, 2, 3, 3, 4, 5>>)
GElem(s, m, k) == IF k = 1 THEN SweepZ(s) ELSE AnyZ(<<"z", s, m, k>>)
GStyle(s, m) == PS(<<"st", s, m>>, <<"tight", "grid", "loose", "loose", "wide">>)
Api(s) == PS(<<"api", s>>, <<"dftd4", "dftd4", "dftd4", "DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero", "Disp", "blocks">>)
UsesQ(s) == Api(s) \notin {"DispD3BJ", "DispD3Zero"}
\* D4S averages the polarizabilities of the exact three-body term over all atoms: not additive by design
Model(s) == IF Frag(s) /\ Api(s) = "DispD4Exact" THEN "d4" ELSE PS(<<"md", s>>, <<"d4", "d4", "d4s">>)
DampOf(s) == IF Api(s) \in {"dftd4", "Disp"} THEN PS(<<"damp", s>>, <<"rational", "rational", "zero", "mzero", "op", "plain">>)
             ELSE IF Api(s) = "DispD3Zero" THEN "zero" ELSE "rational"
Terms(s) == IF Api(s) \in {"dftd4", "Disp"} THEN <<Two(DampOf(s), TRUE), Atm("atm-approx-bj")>> ELSE TermsOf(Api(s))
\* the damping parameters; only the schemes that need the radius factors get them
Shape(s) ==
  [a1 |-> PR(<<"a1", s>>, 200, 700), a2 |-> PR(<<"a2", s>>, 3072, 7168)]
  @@ (IF DampOf(s) \in {"zero", "mzero"} THEN [rs6 |-> PR(<<"rs6", s>>, 700, 1300), rs8 |-> PR(<<"rs8", s>>, 700, 1300)] ELSE << >>)
  @@ (IF DampOf(s) \in {"mzero", "op"} THEN [bet |-> PR(<<"bet", s>>, 20, 300)] ELSE << >>)
  @@ (IF P(<<"alp", s>>, 4) = 0 THEN [alp |-> 14336] ELSE << >>)
Factors(s) == IF DampOf(s) \in {"rational", "plain"} THEN <<"s6", "s8", "s9", "s10">> ELSE <<"s6", "s8", "s9">>
Unit(s, k) == [x \in {Factors(s)[i] : i \in 1..Len(Factors(s))} |-> IF x = k THEN 1024 ELSE 0]
\* arbitrary values: zero, negative, large, ordinary; a factor may be absent
Some(s, c) ==
  LET fs == {Factors(s)[i] : i \in {j \in 1..Len(Factors(s)) : P(<<"abs", s, c, j>>, 5) # 0}}
  IN [x \in fs |-> PS(<<"sv", s, c, x>>, <<0, 0, -1024, 512, 2048, 20480, PR(<<"sr", s, c, x>>, -3000, 3000), PR(<<"sq", s, c, x>>, 1, 3000)>>)]
Q(s, ms, m) == [i \in 1..Len(ms[m].z) |-> QVal(<<"q", s>>, m, i, Len(ms[m].z))]
Cuts == <<<<>>, <<>>, [disp2 |-> 640, disp3 |-> 640], [disp2 |-> 1280], [disp3 |-> 5000, disp2 |-> 7000], [disp3 |-> 320]>>
Base(s, ms) ==
  [api |-> Api(s), layout |-> "single", dtype |-> "float64", model |-> Model(s), terms |-> Terms(s)]
  @@ (IF DampOf(s) # "rational" /\ Api(s) = "dftd4" THEN [damp |-> DampOf(s)] ELSE << >>)
  @@ (IF P(<<"pa", s>>, 3) = 0 THEN [p_as |-> "float"] ELSE << >>)
Linear(s, ms) ==
  LET b == Nested(s, Len(ms)) @@ [layout |-> IF Batch(s) THEN "batch" ELSE "single", mols |-> ms, chg |-> [m \in 1..Len(ms) |-> Charge(<<"tq", s, m>>)]] @@ Base(s, ms)
      u == [k \in 1..Len(Factors(s)) |-> b @@ [p |-> Unit(s, Factors(s)[k]) @@ Shape(s)]]
      v == [c \in 1..3 |-> b @@ [p |-> Some(s, c) @@ Shape(s)]]
  IN [kind |-> "calls", what |-> "linear", factors |-> Factors(s), calls |-> u \o v]
MaxAlong(mol, a) == LET S == {mol.pos[i][a] : i \in 1..Len(mol.pos)} IN CHOOSE x \in S : \A y \in S : y <= x
MinAlong(mol, a) == LET S == {mol.pos[i][a] : i \in 1..Len(mol.pos)} IN CHOOSE x \in S : \A y \in S : y >= x
\* move molecule m beyond its predecessor along an axis, leaving a gap wider than any cutoff
RECURSIVE Spaced(_, _, _, _)
Spaced(s, ms, m, acc) ==
  IF m > Len(ms) THEN acc
  ELSE LET a == 1 + P(<<"ax", s>>, 3)
           need == 64 * PS(<<"gap", s, m>>, <<112, 112, 120, 150, 300, 500>>)
           sh == IF m = 1 THEN 0 ELSE MaxAlong(acc[m - 1], a) + need - MinAlong(ms[m], a)
       IN Spaced(s, ms, m + 1, Append(acc, [ms[m] EXCEPT !.pos = [i \in 1..Len(ms[m].pos) |-> [ms[m].pos[i] EXCEPT ![a] = @ + sh]]]))
RECURSIVE Cat(_)
Cat(t) == IF Len(t) = 0 THEN << >> ELSE Head(t) \o Cat(Tail(t))
RECURSIVE Shuffle(_, _, _)
\* order of the atoms of the whole system
Shuffle(key, rest, k) ==
  IF Len(rest) = 0 THEN << >>
  ELSE LET i == 1 + P(<<key, k>>, Len(rest))
       IN <<rest[i]>> \o Shuffle(key, SubSeq(rest, 1, i - 1) \o SubSeq(rest, i + 1, Len(rest)), k + 1)
Fragments(s, ms) ==
  LET L == Len(ms)
      sp == Spaced(s, ms, 1, << >>)
      all == [z |-> Cat([m \in 1..L |-> sp[m].z]), pos |-> Cat([m \in 1..L |-> sp[m].pos]), den |-> 64]
      n == Len(all.z)
      ord == Shuffle(<<"ord", s>>, [i \in 1..n |-> i], 1)
      q(m) == Q(s, ms, m)
      qa == Cat([m \in 1..L |-> q(m)])
      cut == PS(<<"cut", s>>, Cuts)
      b == Base(s, ms) @@ [p |-> Some(s, 1) @@ Shape(s)] @@ (IF cut = << >> THEN << >> ELSE [cut |-> cut])
      withq(c, qq) == c @@ (IF UsesQ(s) THEN [q |-> <<qq>>] ELSE << >>)
      one(m) == withq(b @@ [mols |-> <<ms[m]>>], q(m))
      whole == withq(b @@ [mols |-> <<[z |-> [i \in 1..n |-> all.z[ord[i]]], pos |-> [i \in 1..n |-> all.pos[ord[i]]], den |-> 64]>>], [i \in 1..n |-> qa[ord[i]]])
  IN [kind |-> "calls", what |-> "fragments", order |-> ord, calls |-> [m \in 1..L |-> one(m)] \o <<whole>>]
GFinish(s, ms) == IF Frag(s) THEN Fragments(s, ms) ELSE Linear(s, ms)
=============================================================================
