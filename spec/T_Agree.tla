------------------------------ MODULE T_Agree ------------------------------
(* C31: what processes of different kinds recorded when they made the same calls: of blocks of recorded steps the
   digests, one for each process, and of the steps in which they differ the steps themselves. *)
EXTENDS TraceBase
VARIABLE l
Agree(runs) == \A i, j \in DOMAIN runs : runs[i] = runs[j]
Line(c) == Judge(l, IF Len(c.runs) = c.procs /\ Agree(c.runs) THEN <<>> ELSE <<"the recordings of " \o c.what \o " differ from process to process">>, c.procs > 1)
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Line(Trace[l]) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
