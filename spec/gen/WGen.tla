-------------------------------- MODULE WGen --------------------------------
(* Requests for reference weights, shared by C04 and C18.  The first NSweep scenarios together show every
   ordered pair of elements to the pairwise model, the next visit every reference of every element with
   both sets of reference charges; the others visit every element many times. *)
EXTENDS Families, Tables
NSweep == 28
Sweep(s) == s <= NSweep
\* the s-th pair of the eight blocks of 13 elements
BlockPairs == {x \in (1..8) \X (1..8) : x[1] < x[2]}
BlockPair(s) == CHOOSE x \in BlockPairs : Cardinality({y \in BlockPairs : y[1] < x[1] \/ (y[1] = x[1] /\ y[2] < x[2])}) = s - 1
SweepElem(s, k) == LET b == BlockPair(s)
                       z == IF k <= 13 THEN (13 * (b[1] - 1)) + k ELSE (13 * (b[2] - 1)) + k - 13
                   IN IF z > 103 THEN 1 ELSE z
Plain(s) == s > NSweep /\ s <= NSweep + 86 + 103        \* one element each
PlainZ(s) == IF s <= NSweep + 86 THEN s - NSweep ELSE s - NSweep - 86
Batch(s) == ~Sweep(s) /\ ~Plain(s) /\ s % 6 = 0
Model(s) == IF Sweep(s) THEN "d4s" ELSE IF Plain(s) THEN "d4" ELSE PS(<<"md", s>>, <<"d4", "d4", "d4s", "d4sdebug">>)
Refq(s) == IF Plain(s) THEN IF s <= NSweep + 86 THEN "gfn2" ELSE "eeq" ELSE IF ~Sweep(s) /\ P(<<"rq", s>>, 4) = 0 THEN "gfn2" ELSE "eeq"
ZMax(s) == IF Refq(s) = "gfn2" THEN 86 ELSE 103
GNMol(s) == IF Batch(s) THEN 2 * PR(<<"nm", s>>, 1, 2) ELSE 1
GSize(s, m) == IF Sweep(s) THEN 26
               ELSE IF Model(s) = "d4" THEN (IF Batch(s) THEN PR(<<"n", s, m>>, 1, 12) ELSE 24) ELSE PR(<<"n", s, m>>, 1, IF s % 10 = 0 THEN 14 ELSE 6)
ZOf(s) == IF Plain(s) THEN PlainZ(s) ELSE 1 + ((s * 37) % ZMax(s))
GElem(s, m, k) == IF Sweep(s) THEN SweepElem(s, k)
                  ELSE IF k % 2 = 1 \/ (Model(s) = "d4" /\ m = 1) THEN ZOf(s) ELSE PR(<<"z", s, m, k>>, 1, ZMax(s))
GStyle(s, m) == "sweep"
CNs == <<0, 100, 512, 900, 1000, 1024, 1100, 1500, 2000, 2048, 2900, 3072, 3500, 4000, 4096, 5000, 6000, 6144, 7500, 8192, 10000, 12288>>
\* between two references of the element, where the weights are mixed
Between(key, z) ==
  LET act == {r \in 1..NRef : RefC[z][r] > 0}
      nth(i) == CHOOSE r \in act : Cardinality({x \in act : x < r}) = i
      a == RefCN[z][nth(P(<<key, "a">>, Cardinality(act)))]
      b == RefCN[z][nth(P(<<key, "b">>, Cardinality(act)))]
      f == R(PR(<<key, "f">>, 0, 8)) // 8
  IN RRound(1024 ** (a ++ (f ** (b -- a))))
\* exactly at the k-th reference (as far as the grid allows)
AtRef(k, z) == LET act == {r \in 1..NRef : RefC[z][r] > 0}
                   r == CHOOSE r \in act : Cardinality({x \in act : x < r}) = k % Cardinality(act)
               IN RRound(1024 ** RefCN[z][r])
CN(key, z, sweep) ==
  LET v == P(<<key, "v">>, 10)
  IN IF sweep \/ v >= 7 THEN Between(key, z)
     ELSE IF v = 0 THEN PS(key, <<16384, 20000, 40960, 102400>>)
     ELSE IF v < 4 THEN PS(key, CNs) ELSE PR(key, 0, 9000)
Q(key) == LET v == P(<<key, "v">>, 12)
          IN IF v = 0 THEN PS(key, <<-4096, -8192, -20480, -40960, -1024, -2048, -3072, 8192, 40960>>)
             ELSE IF v < 4 THEN PS(key, <<0, 0, 102, 512, -512, 1024, -1024, 1, -1>>) ELSE PR(key, -1200, 1200)
Opts(s) ==
  LET o(c, k, v) == IF c THEN [x \in {k} |-> v] ELSE << >>
  IN o(Refq(s) = "gfn2" \/ P(<<"xr", s>>, 3) = 0, "refq", Refq(s))
     @@ o(P(<<"ga", s>>, 4) = 0, "ga", PS(<<"gav", s>>, <<2048, 3072, 4096, 1024, 0>>))
     @@ o(P(<<"gc", s>>, 4) = 0, "gc", PS(<<"gcv", s>>, <<1024, 2048, 3000, 0>>))
     @@ o(Model(s) = "d4" /\ P(<<"wf", s>>, 4) = 0, "wf", PS(<<"wfv", s>>, <<4096, 6144, 8192, 1024, 0>>))
     @@ o(Model(s) = "d4s" /\ ~Sweep(s) /\ P(<<"wf", s>>, 4) = 0, "wfk", PR(<<"wfk", s>>, 1, 9))
Miss(s) == IF Sweep(s) \/ Plain(s) THEN "none" ELSE PS(<<"miss", s>>, <<"none", "none", "none", "none", "none", "none", "q", "cn", "both">>)
Dtype(s) == IF Sweep(s) \/ Plain(s) THEN "float64" ELSE PS(<<"dt", s>>, <<"float64", "float64", "float64", "float32">>)
WCall(s, ms) ==
  LET n(m) == Len(ms[m].z)
      layout == IF ~Batch(s) THEN "single" ELSE IF P(<<"b3", s>>, 3) = 0 THEN "batch3" ELSE "batch"
      base == [mols |-> ms, layout |-> layout, dtype |-> Dtype(s), model |-> Model(s), opt |-> Opts(s)]
              @@ (IF P(<<"oden", s>>, 3) = 0 THEN [oden |-> 1000] ELSE << >>)
      cn == IF Miss(s) \in {"cn", "both"} THEN << >>
            ELSE [cn |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |->
                    IF Plain(s) /\ i <= 7 THEN AtRef(i, ms[m].z[i]) ELSE CN(<<"cn", s, m, i>>, ms[m].z[i], Sweep(s))]]]
      q == IF Miss(s) \in {"q", "both"} THEN << >>
           ELSE [q |-> [m \in 1..Len(ms) |-> [i \in 1..n(m) |-> Q(<<"q", s, m, i>>)]]]
      pad == IF Batch(s) THEN [pad |-> P(<<"pad", s>>, 3)] ELSE << >>
      group == IF layout = "batch3" THEN [group |-> 2] ELSE << >>
  IN base @@ cn @@ q @@ pad @@ group
=============================================================================
