---------------------------- MODULE Conversions ----------------------------
(***************************************************************************)
(* Objects with a floating-point type: models, containers, terms, cutoffs. *)
(* An object is [kind, dtype, prec, extra]: an index into the kinds of the *)
(* scenario, its type, the coarsest type its stored numbers went through   *)
(* and the number of terms registered since.  Converting appends an object *)
(* and changes no other one; a type that is not floating point is refused. *)
(* Asking for the type an object already has may give the object itself,   *)
(* so the two share one root.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Floats == {"float32", "float64"}
Coarser(a, b) == IF "float32" \in {a, b} THEN "float32" ELSE "float64"

\* kinds whose numbers are stored (and rounded) rather than looked up on use
Stores(kind) == kind.what = "model" \/ (kind.what = "box" /\ kind.model_as = "inst")
Obj(kinds, k, dt, prec, root) == [kind |-> k, dtype |-> dt, prec |-> IF Stores(kinds[k]) THEN prec ELSE dt, extra |-> 0, root |-> root]

ConvFails(objs, o) == o.op = "convert" /\ o.dtype \notin Floats
Shared(objs, k) == \E j \in 1..Len(objs) : j # k /\ objs[j].root = objs[k].root
ConvCan(kinds, objs, o) ==
  CASE o.op = "new" -> o.kind \in 1..Len(kinds)
    [] o.op = "convert" -> o.o \in 1..Len(objs)
    [] o.op = "mix" -> o.o \in 1..Len(objs)
    [] o.op = "register" -> o.o \in 1..Len(objs) /\ kinds[objs[o.o].kind].what = "box" /\ ~Shared(objs, o.o)
    [] OTHER -> FALSE
ConvApply(kinds, objs, o) ==
  IF ConvFails(objs, o) THEN objs
  ELSE CASE o.op = "new" -> Append(objs, Obj(kinds, o.kind, o.dtype, o.dtype, Len(objs) + 1))
         [] o.op = "convert" ->
              LET s == objs[o.o]
                  root == IF s.dtype = o.dtype THEN s.root ELSE Len(objs) + 1
                  n == Obj(kinds, s.kind, o.dtype, Coarser(s.prec, o.dtype), root)
              IN Append(objs, [n EXCEPT !.extra = s.extra])
         [] o.op = "mix" -> objs       \* used with inputs of the other type: unspecified result, no effect
         [] o.op = "register" -> [objs EXCEPT ![o.o].extra = @ + 1]
=============================================================================
