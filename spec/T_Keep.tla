-------------------------------- MODULE T_Keep --------------------------------
(* C34: blocks of memory and objects of the library alive after each of equally long runs of calls on ever new values.
   Something is kept for good if they grow with every run but the first, to the last; a table that fills does so only at first. *)
EXTENDS TraceBase
VARIABLE l
\* per run: at least one for every so many calls
Grows(s, least) == Len(s) >= 6 /\ \A i \in 2..Len(s) - 1 : s[i + 1] >= s[i] + least
Cases(c) == << <<"memory grows with the number of calls", ~Grows(c.sizes, 3 * c.calls)>>,
               <<"objects of the library pile up", ~Grows(c.objects, (c.calls + 99) \div 100)>> >>
Fails(c) == Broken(Cases(c))
Nontrivial(c) == c.calls >= 50
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), Nontrivial(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
