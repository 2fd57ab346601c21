------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The element data of the D4 model, frozen from the pinned commit         *)
(* (spec/data/tables.json), indexed by the atomic number 1..103.           *)
(***************************************************************************)
EXTENDS R64, IOUtils
MaxZ    == 103
MaxZgfn == 86
Tab == Load(IOEnv.SPECDATA \o "/tables.json")
RefC    == Tab.refc        \* number of Gaussians per reference (0: no such reference)
RefCN   == Tab.refcn       \* coordination number of the reference
RefQ(set) == IF set = "eeq" THEN Tab.q_eeq ELSE Tab.q_gfn2     \* charge of the reference
RefH(set) == IF set = "eeq" THEN Tab.h_eeq ELSE Tab.h_gfn2     \* charge of its saturating partner
RefSys  == Tab.refsys      \* which secondary system is subtracted
Zeff    == Tab.zeff
Gam     == Tab.gam
R4R2    == Tab.r4r2
WfPair  == Tab.wfpair
Cov     == Tab.cov
EN      == Tab.en
VdW     == Tab.vdw
Quad    == Tab.quad        \* weights of the 23-point frequency quadrature
NRef == 7
NFreq == 23
ThreeOverPi == R("0.954929658551372")   \* 3/pi
=============================================================================
