------------------------------- MODULE T_World -------------------------------
(* C33: what changed in the world during a call, and draws made again from the same random state. *)
EXTENDS TraceBase, Sequences, FiniteSets
VARIABLE l
Allowed(op) == IF op = "rand" THEN {"random"} ELSE IF op = "generate" THEN {"target"} ELSE {}
Changed(c) == {c.changed[i] : i \in DOMAIN c.changed}
Cases(c) == << <<"the call touches what it was not given", Changed(c) \subseteq Allowed(c.op)>>,
               <<"the same draws from the same random state give another track", c.op = "rand" => c.obs = c.again>>,
               <<"the random state afterwards is another one", c.op = "rand" => c.state = c.stateagain>> >>
Fails(c) == Broken(Cases(c))
Nontrivial(c) == c.n > 3
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), Nontrivial(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
