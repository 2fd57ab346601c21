------------------------------ MODULE ConfC21 ------------------------------
(* The recorded history runs through the machine of Conversions; every object is used after every operation. *)
EXTENDS Calls, Conversions, Containers, IOUtils
VARIABLES rec, at, objs, verdict
Trace == LoadLines(IOEnv.TRACE)
Rec == Trace[rec]
Init == rec \in 1..Len(Trace) /\ at = 0 /\ objs = << >> /\ verdict = {}
KTerms(kind) ==
  CASE kind.what = "term" -> <<Pool[kind.term]>>
    [] kind.what = "box" -> [k \in 1..Len(StartTerms(kind.api)) |-> Pool[StartTerms(kind.api)[k]]]
    [] OTHER -> D4Terms
Extra(n) == [k \in 1..n |-> Pool[2]]
CallOf(o) ==
  LET kind == Rec.kinds[o.kind]
  IN Rec.base @@ [x \in DOMAIN kind \ {"what", "term"} |-> kind[x]] @@ [terms |-> KTerms(kind) \o Extra(o.extra), dtype |-> Coarser(o.prec, o.dtype)]
Near(call, a, b, rel) ==
  LET ra == Rows(call, a)
      rb == Rows(call, b)
  IN Len(ra) = Len(rb) /\ \A m \in 1..Len(ra) : Len(ra[m]) = Len(rb[m]) /\ \A i \in 1..Len(ra[m]) :
       RClose(ra[m][i], rb[m][i], (rel ** RMaxAbs(ra[m])) ++ R("1e-12"))
Judge(o, b, ob, prev) ==
  LET new == Len(b) > Len(objs)
      n == Len(b)
      fresh(k) == k > Len(objs) \/ (o.op = "register" /\ o.o = k)
      u(k) == ob.uses[k]
      c(k) == CallOf(b[k])
      peers(k) == {j \in 1..n : j # k /\ b[j].kind = b[k].kind /\ b[j].extra = b[k].extra /\ b[j].dtype = b[k].dtype /\ ~Broken(u(j))}
  IN IF ConvFails(objs, o) # Fld(ob, "err") THEN IF Fld(ob, "err") THEN {"refused"} ELSE {"accepted"}
     ELSE IF Len(ob.uses) # n THEN {"objects"}
     ELSE IF ~Defined(Rec.base @@ [terms |-> D4Terms]) THEN {}
     ELSE IF \E k \in 1..n : Broken(u(k)) THEN {"error"}
     ELSE (IF \A k \in 1..n : u(k).odtype = b[k].dtype /\ u(k).edtype = b[k].dtype THEN {} ELSE {"dtype"})
          \cup (IF \A k \in 1..n : u(k).intact THEN {} ELSE {"stored"})
          \cup (IF \A k \in 1..n : fresh(k) => EnergyOk(c(k), u(k)) THEN {} ELSE {"energy"})
          \cup (IF \A k \in 1..n : ~fresh(k) => u(k).energy = prev[k].energy THEN {} ELSE {"original-changed"})
          \cup (IF \A k \in 1..n : fresh(k) => \A j \in peers(k) : Near(c(k), u(j).energy, u(k).energy, R("1e-4")) THEN {} ELSE {"as-built"})
Step ==
  /\ at < Len(Rec.ops)
  /\ verdict = {}
  /\ LET o == Rec.ops[at + 1]
         b == ConvApply(Rec.kinds, objs, o)
         bad == Judge(o, b, Rec.obs[at + 1], IF at = 0 THEN << >> ELSE Rec.obs[at].uses)
     IN /\ objs' = b
        /\ verdict' = bad
        /\ (bad # {} => Emit(IOEnv.FAILS, [id |-> Rec.id, bad |-> bad]))
  /\ at' = at + 1
  /\ UNCHANGED rec
Next == Step
Conforms == verdict = {}
============================================================================
