----------------------------- MODULE MC_Threads -----------------------------
(***************************************************************************)
(* C28: threads that read one track at the same time, at the grain at      *)
(* which the interpreter may switch between them.  The track is a list     *)
(* sorted when first iterated.  A thread iterates, counts, or writes the    *)
(* track (iterates it and then puts the notes out one by one into a buffer *)
(* it then returns).                                                       *)
(*   VARIANT   copy       sorts a copy and puts it in place (the code)      *)
(*             inplace    sorts in place: the list is empty meanwhile       *)
(*             flagfirst  says "sorted" before it is                        *)
(*             buffer     as copy, but writers share the buffer             *)
(* Only copy satisfies Inv; the others are the negative controls.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, IOUtils
V == IOEnv.VARIANT
Threads == 1..atoi(IOEnv.THREADS)
Jobs == {"iter", "count", "write"}
Heaps == {<<>>, <<1>>, <<1, 3, 2>>, <<1, 2, 3>>, <<1, 1, 1>>, <<1, 2, 1>>, <<1, 3, 2, 4>>}
VARIABLES heap, flag, buf, th, full
vars == <<heap, flag, buf, th, full>>
Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)
Init == /\ heap \in Heaps /\ full = heap /\ flag = FALSE /\ buf = <<>>
        /\ th \in [Threads -> {[job |-> j, pc |-> "start", tmp |-> <<>>, own |-> <<>>, res |-> <<>>] : j \in Jobs}]
Go(t, r) == th' = [th EXCEPT ![t] = r]
To(t, pc) == Go(t, [th[t] EXCEPT !.pc = pc])
Step(t) == LET r == th[t] IN
    CASE r.pc = "start" ->
            IF r.job = "count" THEN Go(t, [r EXCEPT !.res = <<Len(heap)>>, !.pc = "done"]) /\ UNCHANGED <<heap, flag, buf>>
            ELSE To(t, IF flag THEN "snap" ELSE IF V = "flagfirst" THEN "flag" ELSE "sort") /\ UNCHANGED <<heap, flag, buf>>
      [] r.pc = "sort" ->
            IF V = "inplace" THEN Go(t, [r EXCEPT !.tmp = heap, !.pc = "put"]) /\ heap' = <<>> /\ UNCHANGED <<flag, buf>>
            ELSE Go(t, [r EXCEPT !.tmp = heap, !.pc = "put"]) /\ UNCHANGED <<heap, flag, buf>>
      [] r.pc = "put" -> heap' = Sorted(r.tmp) /\ To(t, IF V = "flagfirst" THEN "snap" ELSE "flag") /\ UNCHANGED <<flag, buf>>
      [] r.pc = "flag" -> flag' = TRUE /\ To(t, IF V = "flagfirst" THEN "sort" ELSE "snap") /\ UNCHANGED <<heap, buf>>
      [] r.pc = "snap" ->
            IF r.job = "iter" THEN Go(t, [r EXCEPT !.res = heap, !.pc = "done"]) /\ UNCHANGED <<heap, flag, buf>>
            ELSE Go(t, [r EXCEPT !.tmp = heap, !.own = <<>>, !.pc = "out"]) /\ buf' = <<>> /\ UNCHANGED <<heap, flag>>
      [] r.pc = "out" ->
            IF r.tmp = <<>> THEN Go(t, [r EXCEPT !.res = IF V = "buffer" THEN buf ELSE r.own, !.pc = "done"]) /\ UNCHANGED <<heap, flag, buf>>
            ELSE Go(t, [r EXCEPT !.own = Append(@, Head(r.tmp)), !.tmp = Tail(@)]) /\ buf' = Append(buf, Head(r.tmp)) /\ UNCHANGED <<heap, flag>>
      [] OTHER -> FALSE
Next == (\E t \in Threads : Step(t)) /\ UNCHANGED full
\* each thread gets what it would get alone, and the track holds what it held
Inv == \A t \in Threads : th[t].pc = "done" =>
          th[t].res = IF th[t].job = "count" THEN <<Len(full)>> ELSE Sorted(full)
Kept == (\A t \in Threads : th[t].pc \in {"start", "done"}) => Sorted(heap) = Sorted(full)
Fair == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t) /\ UNCHANGED full)
Ends == \A t \in Threads : <>(th[t].pc = "done")
=============================================================================
