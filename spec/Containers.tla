----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Dispersion containers as a state machine.  boxes[c] is the sequence of  *)
(* terms container c holds (or Absent before it is constructed).  Terms    *)
(* are values: two terms are equal iff they have the same kind, damping    *)
(* scheme and charge dependence, whatever objects represent them.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Absent == <<0>>

T(kind, damp, chg) == [kind |-> kind, damp |-> damp, chg |-> chg]
\* the terms in play
Pool == <<T("two", "rational", TRUE), T("two", "rational", FALSE), T("atm-approx-bj", "zero", FALSE),
          T("atm-exact-bj", "zero", FALSE), T("two", "zero", FALSE), T("atm-approx-vdw", "zero", FALSE),
          T("atm-approx-bj", "zero", TRUE), T("two", "mzero", TRUE), T("flat", "zero", TRUE), T("atm-exact-bj", "soft", FALSE),
          T("flat", "zero", FALSE)>>
\* predefined methods and their documented terms (indices into Pool)
StartTerms(cls) ==
  CASE cls = "Disp" -> << >> [] cls = "DispD4" -> <<1, 3>> [] cls = "DispD4Exact" -> <<1, 4>>
    [] cls = "DispD3BJ" -> <<2, 6>> [] cls = "DispD3Zero" -> <<5, 6>>
Classes == <<"Disp", "DispD4", "DispD4Exact", "DispD3BJ", "DispD3Zero">>

Holds(box, t) == \E k \in 1..Len(box) : box[k] = t
RemoveFirst(box, t) ==
  LET k == CHOOSE i \in 1..Len(box) : box[i] = t /\ \A j \in 1..(i - 1) : box[j] # t
  IN SubSeq(box, 1, k - 1) \o SubSeq(box, k + 1, Len(box))

\* an operation is a record [op, c, ...]; Enabled says when the environment may try it
CanDo(boxes, o) ==
  CASE o.op = "new" -> TRUE
    [] o.op \in {"register", "deregister"} -> boxes[o.c] # Absent
    [] o.op = "copy" -> boxes[o.c] # Absent /\ o.to # o.c
    [] OTHER -> FALSE
Fails(boxes, o) == o.op = "deregister" /\ ~Holds(boxes[o.c], o.t)
Apply(boxes, o) ==
  IF Fails(boxes, o) THEN boxes
  ELSE CASE o.op = "new" -> [boxes EXCEPT ![o.c] = StartTerms(o.cls)]
         [] o.op = "register" -> [boxes EXCEPT ![o.c] = Append(@, o.t)]
         [] o.op = "deregister" -> [boxes EXCEPT ![o.c] = RemoveFirst(@, o.t)]
         [] o.op = "copy" -> [boxes EXCEPT ![o.to] = boxes[o.c]]
Count(box, t) == Cardinality({k \in 1..Len(box) : box[k] = t})
=============================================================================
