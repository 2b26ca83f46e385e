----------------------------- MODULE MC_Reentry -----------------------------
(***************************************************************************)
(* C29: calls made from within calls.  A stack of calls in progress - the  *)
(* addition of notes a generator gives out, a loop over a track, the       *)
(* writing of a track piece by piece - any of which may be interrupted at   *)
(* any of its steps by another call, which ends before the first goes on.  *)
(*   VARIANT   ok        what a call needs it keeps to itself               *)
(*             where     the position of an addition is kept in the track   *)
(*             live      a loop looks at the track as it is now             *)
(*             cursor    the place of a loop is kept in the track           *)
(*             buffer    writers share a buffer                             *)
(*             busy      additions within an addition to the same track are *)
(*                       lost                                               *)
(* Only ok satisfies Inv; the others are the negative controls.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, IOUtils
V == IOEnv.VARIANT
Depth == atoi(IOEnv.DEPTH)
Calls == atoi(IOEnv.CALLS)
Tracks == 1..2
VARIABLES ents,   \* track -> positions of its notes, each of duration 1
          pos,    \* track -> the position kept in it (where)
          cur,    \* track -> the place kept in it (cursor)
          buf,    \* the shared buffer
          stack, calls,
          abs,    \* track -> what it must hold, where no addition is in progress
          bad     \* a call gave what it must not
vars == <<ents, pos, cur, buf, stack, calls, abs, bad>>
Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)
Greater(a, b) == IF a > b THEN a ELSE b
Len1(s) == FoldLeft(LAMBDA m, x : Greater(m, x + 1), 0, s)
Init == /\ ents \in [Tracks -> {<<>>, <<1, 0>>}] /\ pos = [t \in Tracks |-> 0] /\ cur = [t \in Tracks |-> 0]
        /\ buf = <<>> /\ stack = <<>> /\ calls = 0 /\ abs = ents /\ bad = FALSE
Open(k, t) == \E i \in DOMAIN stack : stack[i].k = k /\ stack[i].a = t
Top == stack[Len(stack)]
Push(f) == stack' = Append(stack, f) /\ calls' = calls + 1
May == Len(stack) < Depth /\ calls < Calls

BeginAdd(t, w, n) ==
    LET p == IF w = "end" THEN Len1(ents[t]) ELSE 1 IN
    /\ May /\ ~Open("write", t)
    \* within an addition to the same track only at a position given, and not beyond its end
    /\ Open("add", t) => w = "at" /\ (Len1(ents[t]) < 2 => \A i \in DOMAIN stack : stack[i].k = "add" /\ stack[i].a = t => stack[i].w = "at")
    /\ Push([k |-> "add", a |-> t, w |-> w, p |-> p, left |-> n, want |-> p, n |-> n, lost |-> V = "busy" /\ Open("add", t)])
    /\ pos' = [pos EXCEPT ![t] = p]
    /\ UNCHANGED <<ents, cur, buf, abs, bad>>
BeginLoop(t) ==
    /\ May /\ ~Open("add", t)
    /\ Push([k |-> "loop", a |-> t, snap |-> Sorted(ents[t]), i |-> 0, got |-> <<>>, want |-> Sorted(abs[t])])
    /\ ents' = [ents EXCEPT ![t] = Sorted(@)] /\ cur' = [cur EXCEPT ![t] = 0]
    /\ UNCHANGED <<pos, buf, abs, bad>>
BeginWrite(t) ==
    /\ May /\ ~Open("add", t)
    /\ Push([k |-> "write", a |-> t, todo |-> Sorted(ents[t]), out |-> <<>>, want |-> Sorted(abs[t])])
    /\ buf' = <<>>
    /\ UNCHANGED <<ents, pos, cur, abs, bad>>
Put(f) == stack' = [stack EXCEPT ![Len(stack)] = f]
Pop == stack' = SubSeq(stack, 1, Len(stack) - 1)
Advance ==
    /\ stack # <<>> /\ UNCHANGED calls
    /\ LET f == Top t == f.a IN
       CASE f.k = "add" ->
              IF f.left > 0 THEN /\ ents' = [ents EXCEPT ![t] = IF f.lost THEN @ ELSE Append(@, IF V = "where" THEN pos[t] ELSE f.p)]
                                 /\ Put([f EXCEPT !.left = @ - 1]) /\ UNCHANGED <<pos, cur, buf, abs, bad>>
              ELSE /\ abs' = [abs EXCEPT ![t] = @ \o [i \in 1..f.n |-> f.want]] /\ Pop /\ UNCHANGED <<ents, pos, cur, buf, bad>>
         [] f.k = "loop" ->
              LET s == IF V \in {"live", "cursor"} THEN ents[t] ELSE f.snap
                  i == IF V = "cursor" THEN cur[t] ELSE f.i IN
              IF i < Len(s) THEN /\ Put([f EXCEPT !.i = i + 1, !.got = Append(@, s[i + 1])]) /\ cur' = [cur EXCEPT ![t] = i + 1]
                                 /\ UNCHANGED <<ents, pos, buf, abs, bad>>
              ELSE /\ bad' = (bad \/ f.got # f.want) /\ Pop /\ UNCHANGED <<ents, pos, cur, buf, abs>>
         [] f.k = "write" ->
              IF f.todo # <<>> THEN /\ Put([f EXCEPT !.todo = Tail(@), !.out = Append(@, Head(f.todo))]) /\ buf' = Append(buf, Head(f.todo))
                                    /\ UNCHANGED <<ents, pos, cur, abs, bad>>
              ELSE /\ bad' = (bad \/ (IF V = "buffer" THEN buf ELSE f.out) # f.want) /\ Pop /\ UNCHANGED <<ents, pos, cur, buf, abs>>
Next == \/ Advance
        \/ \E t \in Tracks : BeginLoop(t) \/ BeginWrite(t) \/ \E w \in {"end", "at"} : \E n \in 1..2 : BeginAdd(t, w, n)
\* each call gives what it gives alone, and a track holds what was added to it
Inv == ~bad /\ \A t \in Tracks : ~Open("add", t) => Sorted(ents[t]) = Sorted(abs[t])
Fair == Init /\ [][Next]_vars /\ WF_vars(Advance)
Ends == []<>(stack = <<>>)
=============================================================================
