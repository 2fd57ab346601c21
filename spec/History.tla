------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* A session of a user who keeps systems, parameter sets, models, cutoffs  *)
(* and containers around, changes the first two in place, scribbles over   *)
(* results and calls from several threads.  The only state a result may    *)
(* depend on is the present content of what is passed to the call:         *)
(*   var[s]  which content system s holds                                  *)
(*   par[p]  which content parameter set p holds                           *)
(*   cut[c]  which content cutoff collection c holds                       *)
(*   gone    the results the user has overwritten                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
HInit(ns, np, nc) == [var |-> [s \in 1..ns |-> 1], par |-> [p \in 1..np |-> 1], cut |-> [c \in 1..nc |-> 1], gone |-> {}]
Evaluations == {"energy", "props", "weights", "grad"}
HApply(st, o) ==
  CASE o.op = "mutate" -> [st EXCEPT !.var[o.s] = o.v]
    [] o.op = "setp" -> [st EXCEPT !.par[o.p] = o.v]
    [] o.op = "setc" -> [st EXCEPT !.cut[o.c] = o.v]
    [] o.op = "scribble" -> [st EXCEPT !.gone = @ \cup {o.r}]
    [] OTHER -> st        \* evaluations and the global default type change nothing
\* the call that an evaluation stands for, given the present contents
Meaning(rec, st, o) ==
  LET c == rec.systems[o.s][st.var[o.s]]
      h == rec.hows[o.h]
  IN [layout |-> c.layout, dtype |-> IF o.f32 THEN "float32" ELSE "float64", mols |-> c.mols, chg |-> c.chg, p |-> rec.params[o.p][st.par[o.p]],
      api |-> h.api, model |-> h.model, terms |-> h.terms]
     \* derivatives are taken along the direction that comes with the system and equally along all parameters
     @@ (IF o.op = "grad" THEN [dpos |-> c.dir, dp |-> [k \in DOMAIN rec.params[o.p][st.par[o.p]] |-> 64]] ELSE << >>)
     @@ (IF o.useq THEN [q |-> c.q] ELSE << >>)
     @@ (IF "user" \in DOMAIN o /\ o.user THEN [r4r2 |-> c.r4r2] ELSE << >>)
     @@ (IF "usev" \in DOMAIN o /\ o.usev THEN [vdw |-> c.vdw] ELSE << >>)
     @@ (IF o.c > 0 THEN [cut |-> rec.cuts[o.c][st.cut[o.c]]] ELSE << >>)
=============================================================================
