------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Trace validation.  Every record of the trace recorded from the real     *)
(* code is one initial state; its only transition judges the record by the *)
(* specification and stores the names of the clauses that fail.            *)
(***************************************************************************)
EXTENDS Calls, IOUtils
CONSTANT Judge(_)          \* record -> set of names of violated clauses

VARIABLES rec, verdict

Trace == LoadLines(IOEnv.TRACE)

Init == rec \in 1..Len(Trace) /\ verdict = {"todo"}
Step == /\ verdict = {"todo"}
        /\ LET bad == Judge(Trace[rec])
           IN /\ verdict' = bad
              /\ (bad # {} => Emit(IOEnv.FAILS, [id |-> Trace[rec].id, bad |-> bad]))
        /\ UNCHANGED rec
Next == Step
Conforms == verdict \in {{}, {"todo"}}
=============================================================================
