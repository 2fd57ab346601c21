------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* The environment of the system: it builds molecules atom by atom and     *)
(* finally issues a scenario, i.e. a list of calls to the library.         *)
(*                                                                         *)
(* Positions live on an integer grid (Den points per Bohr), so that states *)
(* are finite and every coordinate is exactly representable in single and  *)
(* double precision.  Which of the allowed extensions is taken is resolved *)
(* by the oracle Pick, seeded by the run's seed; TLC explores one path per *)
(* scenario number.  The families (spec/gen/Gen*.tla) supply the plan.     *)
(***************************************************************************)
EXTENDS R64, Integers, FiniteSets, IOUtils, TLC

CONSTANTS NMol(_),         \* number of molecules of a scenario
          Size(_, _),      \* number of atoms of molecule m
          Elem(_, _, _),   \* element of atom k of molecule m
          Style(_, _),     \* how molecule m is spread out
          Finish(_, _)     \* the scenario made from the finished molecules

VARIABLES sc,              \* scenario number
          mols,            \* finished molecules
          atoms,           \* atoms of the molecule under construction: [z, pos]
          phase            \* "grow" | "done"
bvars == <<sc, mols, atoms, phase>>

Den == 64
Seed == atoi(IOEnv.VSEED)
NScen == atoi(IOEnv.NSCEN)
Out  == IOEnv.OUT

P(key, n) == Pick(Seed, key, n)                  \* 0..n-1
PR(key, lo, hi) == lo + Pick(Seed, key, hi - lo + 1)
PS(key, seq) == seq[1 + Pick(Seed, key, Len(seq))]

\* shortest and longest distance to the anchor atom, in grid points
Spread(style) ==
  CASE style = "tight" -> <<112, 210>>
    [] style = "loose" -> <<160, 420>>
    [] style = "wide"  -> <<380, 1500>>
    [] style = "far"   -> <<1200, 3000>>
    [] style = "close" -> <<70, 130>>
    [] style \in {"line", "sweep"} -> <<120, 260>>
    [] style = "grid"  -> <<128, 222>>

Step == 128                                      \* spacing of the style "grid": many equal distances and right angles

AbsI(x) == IF x < 0 THEN -x ELSE x
\* squared distance, saturating (TLC integers have 32 bits)
D2(p, q) ==
  LET a == AbsI(p[1] - q[1])
      b == AbsI(p[2] - q[2])
      c == AbsI(p[3] - q[3])
  IN IF a > 20000 \/ b > 20000 \/ c > 20000 THEN 1200000000 ELSE a * a + b * b + c * c

RECURSIVE Place(_, _, _, _, _, _)
Place(s, m, k, pos, style, try) ==
  LET sp == Spread(style)
      key == <<"pos", s, m, k, try>>
      anchor == IF style \in {"line", "sweep"} THEN pos[Len(pos)] ELSE pos[1 + P(<<key, "a">>, Len(pos))]
      c(i) == IF style = "grid" THEN Step * PR(<<key, i>>, -1, 1) ELSE PR(<<key, i>>, -sp[2], sp[2])
      off == IF style \in {"line", "sweep"} THEN <<PR(<<key, 1>>, sp[1], sp[2]), 0, 0>> ELSE <<c(1), c(2), c(3)>>
      cand == [i \in 1..3 |-> anchor[i] + off[i]]
      o2 == D2(off, <<0, 0, 0>>)
  IN IF /\ o2 >= sp[1] * sp[1] /\ o2 <= sp[2] * sp[2]
        /\ \A j \in 1..Len(pos) : D2(pos[j], cand) >= sp[1] * sp[1]
     THEN cand ELSE Place(s, m, k, pos, style, try + 1)

CurM == Len(mols) + 1

Init == /\ sc \in 1..NScen
        /\ mols = << >>
        /\ atoms = [z |-> << >>, pos |-> << >>]
        /\ phase = "grow"

AddAtom ==
  /\ phase = "grow"
  /\ CurM <= NMol(sc)
  /\ Len(atoms.z) < Size(sc, CurM)
  /\ LET k == Len(atoms.z) + 1
         p == IF k = 1 THEN [i \in 1..3 |-> PR(<<"org", sc, CurM, i>>, -200, 200)]
              ELSE Place(sc, CurM, k, atoms.pos, Style(sc, CurM), 0)
         \* some molecules repeat the elements they already have
         rep == k > 1 /\ Style(sc, CurM) # "sweep" /\ Size(sc, CurM) <= 60 /\ P(<<"zmode", sc, CurM>>, 5) = 0 /\ P(<<"zrep", sc, CurM, k>>, 3) > 0
         z == IF rep THEN atoms.z[1 + P(<<"zold", sc, CurM, k>>, k - 1)] ELSE Elem(sc, CurM, k)
     IN atoms' = [z |-> Append(atoms.z, z), pos |-> Append(atoms.pos, p)]
  /\ UNCHANGED <<sc, mols, phase>>

\* some molecules have one of their atoms exactly at the origin
Shifted(s, m, pos) ==
  IF Len(pos) = 0 \/ P(<<"zero", s, m>>, 3) > 0 THEN pos
  ELSE LET o == pos[1 + P(<<"zat", s, m>>, Len(pos))]
       IN [k \in 1..Len(pos) |-> [i \in 1..3 |-> pos[k][i] - o[i]]]

CloseMol ==
  /\ phase = "grow"
  /\ CurM <= NMol(sc)
  /\ Len(atoms.z) = Size(sc, CurM)
  /\ mols' = Append(mols, [z |-> atoms.z, pos |-> Shifted(sc, CurM, atoms.pos), den |-> Den])
  /\ atoms' = [z |-> << >>, pos |-> << >>]
  /\ UNCHANGED <<sc, phase>>

\* How the tensors lie in memory, the integer type of the atomic numbers, the autograd mode and
\* the global default type: none of them is part of a call's meaning.
Ambient(s) ==
  [mem |-> PS(<<"amb-mem", s>>, <<"plain", "plain", "plain", "strided", "reversed">>),
   mode |-> PS(<<"amb-mode", s>>, <<"plain", "plain", "plain", "requires", "nograd", "inference">>),
   zint |-> PS(<<"amb-zint", s>>, <<"int64", "int64", "int64", "int64", "int32">>),
   pas |-> PS(<<"amb-pas", s>>, <<"tensor", "tensor", "tensor", "float", "int">>),
   chgas |-> PS(<<"amb-chg", s>>, <<"tensor", "tensor", "tensor", "float">>),
   \* arguments equal to the documented default are left out
   bare |-> P(<<"amb-bare", s>>, 2) = 0,
   default |-> PS(<<"amb-def", s>>, <<"float32", "float32", "float32", "float64">>)]

Issue ==
  /\ phase = "grow"
  /\ Len(mols) = NMol(sc)
  /\ Emit(Out, [id |-> sc] @@ Finish(sc, mols) @@ [amb |-> Ambient(sc)])
  /\ phase' = "done"
  /\ mols' = << >>
  /\ UNCHANGED <<sc, atoms>>

Next == AddAtom \/ CloseMol \/ Issue
Spec == Init /\ [][Next]_bvars

(* properties of the environment itself *)
\* no two atoms of a molecule coincide or come closer than the style allows
Separated ==
  \A i, j \in 1..Len(atoms.pos) : i < j =>
     LET sp == Spread(Style(sc, CurM)) IN D2(atoms.pos[i], atoms.pos[j]) >= sp[1] * sp[1]
ElementsValid == \A i \in 1..Len(atoms.z) : atoms.z[i] \in 1..103
BuildInv == phase \in {"grow", "done"} /\ ElementsValid /\ (phase = "grow" => Separated)
=============================================================================
