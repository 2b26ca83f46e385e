------------------------------ MODULE T_System ------------------------------
(* C26: recorded programs over the whole library, each step against System. *)
EXTENDS TraceBase, System
VARIABLES l, store
Line(c) ==
    IF c.op = "reset" THEN store' = <<>> /\ Judge(l, <<>>, FALSE)
    ELSE store' = After(store, c) /\ Judge(l, Fails(store, c), Len(store) > 3)
Init == l = 1 /\ store = <<>> /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Line(Trace[l]) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED store
=============================================================================
