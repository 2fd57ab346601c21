------------------------------ MODULE ConvGen ------------------------------
(* what the objects of a conversion history can be *)
EXTENDS Integers, Sequences, TLC
Model1(md, opt) == [what |-> "model", model |-> md, model_as |-> "inst", api |-> "dftd4", opt |-> opt]
Box1(cls, md, as, ex) == [what |-> "box", api |-> cls, model |-> md, model_as |-> as] @@ ex
Term1(k) == [what |-> "term", api |-> "Disp", model |-> "d4", model_as |-> "key", term |-> k]
Cut1(cut) == [what |-> "cutoff", api |-> "dftd4", model |-> "d4", model_as |-> "key", cut |-> cut]
=============================================================================
