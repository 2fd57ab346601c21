------------------------------ MODULE ConfC12 ------------------------------
(* The recorded history is replayed through the machine of Containers; after every operation each
   container's energy is the sum of the energies of the terms it holds in the machine. *)
EXTENDS Calls, Containers, IOUtils
VARIABLES rec, at, boxes, verdict
Trace == LoadLines(IOEnv.TRACE)
Rec == Trace[rec]
Init == rec \in 1..Len(Trace) /\ at = 0 /\ boxes = <<Absent, Absent>> /\ verdict = {}
Pooled(box) == [k \in 1..Len(box) |-> Pool[box[k]]]
BoxOk(call, box, e) ==
  IF box = Absent THEN ~Fld(e, "energy")
  ELSE Fld(e, "energy") /\ e.dtype = "float64" /\
       IF Len(box) = 0
       THEN LET rows == Rows(call, e.energy)
            IN Len(rows) = Len(call.mols) /\ \A m \in 1..Len(rows) :
                 Len(rows[m]) >= Len(call.mols[m].z) /\ \A i \in 1..Len(rows[m]) : REq(rows[m][i], 0)
       ELSE EnergyOk(call @@ [terms |-> Pooled(box)], e)
Step ==
  /\ at < Len(Rec.ops)
  /\ verdict = {}
  /\ LET o == Rec.ops[at + 1]
         ob == Rec.obs[at + 1]
         b == Apply(boxes, o)
         bad == (IF Fails(boxes, o) = Fld(ob, "err") THEN {} ELSE IF Fld(ob, "err") THEN {"refused"} ELSE {"accepted"})
                \cup (IF \A c \in 1..2 : BoxOk(Rec.call, b[c], ob.boxes[c]) THEN {} ELSE {"energy"})
     IN /\ boxes' = b
        /\ verdict' = bad
        /\ (bad # {} => Emit(IOEnv.FAILS, [id |-> Rec.id, bad |-> bad]))
  /\ at' = at + 1
  /\ UNCHANGED rec
Next == Step
Conforms == verdict = {}
============================================================================
