------------------------------ MODULE T_Nested ------------------------------
(***************************************************************************)
(* C29: recorded programs with calls made from within calls.  A call that  *)
(* calls back has a line where it begins and one where it ends; what it    *)
(* gives is determined by the store at its beginning.  An addition changes *)
(* the track as it is at its end - calls within it may have added to it.   *)
(***************************************************************************)
EXTENDS TraceBase, System
VARIABLES l, store, stack
vars == <<l, store, stack>>

\* what an addition begun in store S0 does to the track it adds to, in store S
Given(S0, c) == IF c.op = "copyin" THEN EntryNotes(TrackOfRef(S0, c.b)) ELSE NotesAt(S0, c.notes)
Place(S0, c) == WhereArg(S0, c.where, TrackOfRef(S0, c.a))
Put(S, S0, c, k) == LET u == AddAt(TrackOfRef(S, c.a), SubSeq(Given(S0, c), 1, k), Place(S0, c)) IN [t |-> "track", sig |-> u.sig, ents |-> u.ents]
\* an addition that its generator gave up after c.gave notes: some of those may have been placed
Placed(S, S0, c, after) == {k \in 0..c.gave : OTrack(after, Put(S, S0, c, k))}

EndFails(S, S0, c, x) ==
    IF c.obs.t \in {"hang", "weird"} THEN <<c.op \o ": does not end">>
    ELSE IF c.fault = 1 THEN
        One1(c.op \o ": the error does not reach the caller", IsErr(c.obs, "Reached"))
        \o (IF c.op = "add" THEN One1(c.op \o ": the track after the error", Placed(S, S0, c, x) # {}) ELSE <<>>)
    ELSE Fails(S0, c)
EndStore(S, S0, c, x) ==
    IF c.fault = 1 THEN
        IF c.op = "add" /\ Placed(S, S0, c, x) # {}
        THEN [S EXCEPT ![c.a] = Put(S, S0, c, CHOOSE k \in Placed(S, S0, c, x) : TRUE)] ELSE S
    ELSE IF c.op \in {"add", "copyin"} /\ c.obs.t = "ok" THEN [S EXCEPT ![c.a] = Put(S, S0, c, Len(Given(S0, c)))]
    ELSE S \o Adds(c)

Line(c) ==
    CASE c.op = "reset" -> store' = <<>> /\ stack' = <<>> /\ Judge(l, <<>>, FALSE)
      [] c.op = "begin" -> stack' = Append(stack, [c |-> c.f, S |-> store]) /\ store' = store /\ Judge(l, <<>>, Len(stack) > 0)
      [] c.op = "end" -> LET top == stack[Len(stack)]
                             x == IF "after" \in DOMAIN c THEN c.after ELSE [t |-> "none"]
                             d == [obs |-> c.obs, fault |-> c.fault, gave |-> c.gave] @@ top.c IN
                         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
                         /\ store' = EndStore(store, top.S, d, x)
                         /\ Judge(l, EndFails(store, top.S, d, x), Len(stack) > 1)
      [] OTHER -> stack' = stack /\ store' = After(store, c) /\ Judge(l, Fails(store, c), Len(stack) > 0)
Init == l = 1 /\ store = <<>> /\ stack = <<>> /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Line(Trace[l]) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED <<store, stack>>
=============================================================================
