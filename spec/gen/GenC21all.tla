----------------------------- MODULE GenC21all -----------------------------
(* All short histories of creating, converting and extending one kind of object. *)
EXTENDS Conversions, ConvGen, R64, IOUtils
VARIABLES which, objs, hist, phase
vars == <<which, objs, hist, phase>>
Depth == atoi(IOEnv.DEPTH)
AllKinds == <<Model1("d4", [ga |-> 2500, wf |-> 5000]), Model1("d4s", [gc |-> 1500]), Box1("DispD4", "d4", "key", [cnf |-> "d3"]),
              Box1("DispD4", "d4s", "inst", << >>), Box1("DispD3Zero", "d4", "key", << >>), Term1(1), Cut1([disp2 |-> 200, disp3 |-> 180])>>
Kinds == <<AllKinds[which]>>
Mol1 == [z |-> <<26, 17, 6, 1>>, pos |-> <<<<0, 0, 0>>, <<250, 20, 0>>, <<-60, 205, 110>>, <<-90, 290, 10>>>>, den |-> 64]
Base1 == [mols |-> <<Mol1>>, layout |-> "single", chg |-> <<4>>,
          p |-> [s6 |-> 1024, s8 |-> 900, s9 |-> 1024, a1 |-> 400, a2 |-> 5000, rs6 |-> 1100, rs8 |-> 1000, alp |-> 14336]]
Ops == {[op |-> "new", kind |-> 1, dtype |-> d] : d \in Floats}
       \cup {[op |-> "convert", o |-> k, dtype |-> d, via |-> v] : k \in 1..Len(objs), d \in Floats, v \in {"type", "to"}}
       \cup {[op |-> "convert", o |-> k, dtype |-> "int64", via |-> "type"] : k \in 1..Len(objs)}
       \cup {[op |-> "register", o |-> k] : k \in 1..Len(objs)}
       \cup {[op |-> "mix", o |-> k] : k \in 1..Len(objs)}
Init == which \in 1..Len(AllKinds) /\ objs = << >> /\ hist = << >> /\ phase = "run"
Do(o) == /\ phase = "run" /\ Len(hist) < Depth /\ ConvCan(Kinds, objs, o)
         /\ (o.op = "new" => Len(hist) = 0)
         /\ objs' = ConvApply(Kinds, objs, o) /\ hist' = Append(hist, o) /\ UNCHANGED <<which, phase>>
Code(o) == CASE o.op = "new" -> "n" \o o.dtype [] o.op = "mix" -> "x" \o ToString(o.o) [] o.op = "register" -> "r" \o ToString(o.o) [] OTHER -> "c" \o ToString(o.o) \o o.via \o o.dtype
RECURSIVE CodeOf(_)
CodeOf(h) == IF h = << >> THEN "" ELSE Code(h[1]) \o "-" \o CodeOf(Tail(h))
Issue == /\ phase = "run" /\ Len(hist) = Depth
         /\ Emit(IOEnv.OUT, [id |-> <<which, CodeOf(hist)>>, kind |-> "convert", base |-> Base1, kinds |-> Kinds, ops |-> hist])
         /\ phase' = "done" /\ UNCHANGED <<which, objs, hist>>
Next == (\E o \in Ops : Do(o)) \/ Issue
Spec == Init /\ [][Next]_vars
\* converting never changes an existing object
Untouched == [][\A k \in 1..Len(objs) : objs'[k] # objs[k] => hist'[Len(hist')].op = "register" /\ hist'[Len(hist')].o = k]_vars
TypesOK == \A k \in 1..Len(objs) : objs[k].dtype \in Floats /\ Coarser(objs[k].prec, objs[k].dtype) = objs[k].prec
=============================================================================
