----------------------------- MODULE MC_Interrupt -----------------------------
(***************************************************************************)
(* C32: calls that change nothing, given up at any of their steps (an        *)
(* interrupt arrives, say).  A track holds a list of positions, is or is not *)
(* known to be sorted, and is listed, or written with a writer.             *)
(*   VARIANT   ok         the sorted list takes the place of the other, then *)
(*                        it is known to be sorted; a writing begins afresh *)
(*             flagfirst  it is known to be sorted before it is             *)
(*             drain      notes are taken out and put back in order         *)
(*             busy       a writer remembers that it is at work, and refuses *)
(*             buffer     a writer empties its buffer at the end            *)
(*             half       the answer is kept, piece by piece, for next time  *)
(* Only ok satisfies Inv; the others are the negative controls.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, IOUtils
V == IOEnv.VARIANT
Steps == atoi(IOEnv.STEPS)
VARIABLES list, sorted, abs, buf, busy, kept, call, n, bad
vars == <<list, sorted, abs, buf, busy, kept, call, n, bad>>
Sort(s) == SortSeq(s, LAMBDA x, y : x < y)
None == [k |-> "none", pc |-> 0, got |-> <<>>, at |-> 0]
Init == list = <<>> /\ sorted = TRUE /\ abs = <<>> /\ buf = <<>> /\ busy = FALSE /\ kept = <<>> /\ call = None /\ n = 0 /\ bad = FALSE
Add(p) ==
    /\ call.k = "none" /\ Len(abs) < 3
    /\ list' = Append(list, p) /\ sorted' = FALSE /\ abs' = Append(abs, p) /\ kept' = <<>>
    /\ UNCHANGED <<buf, busy, call, bad>>
Begin(k) ==
    /\ call.k = "none"
    /\ IF V = "busy" /\ k = "write" /\ busy THEN bad' = TRUE /\ UNCHANGED <<call, busy>>
       ELSE call' = [None EXCEPT !.k = k, !.pc = 1] /\ busy' = (busy \/ k = "write") /\ UNCHANGED bad
    /\ UNCHANGED <<list, sorted, abs, buf, kept>>
To(p) == call' = [call EXCEPT !.pc = p]
(* the steps of bringing the list in order *)
Order ==
    /\ call.pc \in {1, 2, 3}
    /\ CASE call.pc = 1 /\ sorted -> To(4) /\ UNCHANGED <<list, sorted>>
         [] call.pc = 1 /\ ~sorted /\ V = "flagfirst" -> sorted' = TRUE /\ To(2) /\ UNCHANGED list
         [] call.pc = 1 /\ ~sorted /\ V = "drain" -> list' = <<>> /\ call' = [call EXCEPT !.pc = 2, !.got = Sort(list)] /\ UNCHANGED sorted
         [] call.pc = 1 /\ ~sorted /\ V \notin {"flagfirst", "drain"} -> To(2) /\ UNCHANGED <<list, sorted>>
         [] call.pc = 2 /\ V = "drain" -> list' = call.got /\ call' = [call EXCEPT !.pc = 3, !.got = <<>>] /\ UNCHANGED sorted
         [] call.pc = 2 /\ V # "drain" -> list' = Sort(list) /\ To(3) /\ UNCHANGED sorted
         [] call.pc = 3 -> sorted' = TRUE /\ To(4) /\ UNCHANGED list
    /\ UNCHANGED <<abs, buf, busy, kept, bad, n>>
(* then the answer is put together *)
Answer ==
    /\ call.pc \in {4, 5}
    /\ LET w == call.k = "write" /\ V = "buffer"
           h == V = "half" IN
       CASE call.pc = 4 -> /\ call' = [call EXCEPT !.pc = 5, !.at = IF h /\ kept # <<>> THEN 0 ELSE Len(list)]
                           /\ buf' = IF call.k = "write" /\ ~w THEN <<>> ELSE buf
                           /\ UNCHANGED <<busy, kept, bad>>
         [] call.pc = 5 /\ call.at > 0 ->
              LET x == list[Len(list) - call.at + 1] IN
              /\ call' = [call EXCEPT !.at = @ - 1, !.got = IF w THEN @ ELSE Append(@, x)]
              /\ buf' = IF w THEN Append(buf, x) ELSE buf
              /\ kept' = IF h THEN Append(kept, x) ELSE kept
              /\ UNCHANGED <<busy, bad>>
         [] call.pc = 5 /\ call.at = 0 ->
              LET r == IF w THEN buf ELSE IF h THEN kept ELSE call.got IN
              /\ bad' = (bad \/ r # Sort(abs))
              /\ buf' = IF w THEN <<>> ELSE buf
              /\ busy' = (IF call.k = "write" THEN FALSE ELSE busy) /\ call' = None /\ UNCHANGED kept
    /\ UNCHANGED <<list, sorted, abs, n>>
Interrupt == call.k # "none" /\ call' = None /\ UNCHANGED <<list, sorted, abs, buf, busy, kept, bad, n>>
Next == \/ n < Steps /\ n' = n + 1 /\ ((\E p \in 0..2 : Add(p)) \/ Begin("list") \/ Begin("write"))
        \/ Order \/ Answer \/ Interrupt
Inv == ~bad
=============================================================================
