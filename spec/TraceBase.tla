------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation for operations without memory: Judge(e) is the set of   *)
(* <<property, clause>> broken by the recorded event e, and Expected(e) what *)
(* the specification wants instead (for reports).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Judge(_), Expected(_)

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACE)
Detail == IOEnv.DETAIL = "1"

Init == tid \in 1..Len(Traces) /\ l = 0

Next ==
  /\ l < Len(Traces[tid])
  /\ LET e == Traces[tid][l + 1]
         bad == Judge(e)
     IN /\ \A b \in bad : PrintT(<<"BAD", tid, l + 1, b[1], b[2]>>)
        /\ bad # {} /\ Detail => PrintT(<<"SPEC", Expected(e)>>)
  /\ l' = l + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
