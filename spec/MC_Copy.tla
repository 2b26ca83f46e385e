------------------------------- MODULE MC_Copy -------------------------------
(***************************************************************************)
(* C30 at the level of references: tracks are records that refer to a list *)
(* of positions; adding appends to the list in place, iterating a track     *)
(* not known to be sorted gives it a sorted list of its own.               *)
(*   VARIANT   own      a copy gets a list of its own                       *)
(*             cow      a copy shares the list, and both know it: whichever *)
(*                      is added to first takes a list of its own           *)
(*             shared   a copy shares the list (what Python does unless     *)
(*                      told otherwise)                                    *)
(*             half     a copy shares the list, and only the copy knows it  *)
(* own and cow satisfy Inv; the others are the negative controls.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, IOUtils
V == IOEnv.VARIANT
Steps == atoi(IOEnv.STEPS)
VARIABLES lists, objs, abs, n
vars == <<lists, objs, abs, n>>
Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)
More(a, b) == IF a > b THEN a ELSE b
Init == lists = << <<>> >> /\ objs = <<[at |-> 1, end |-> 0, sorted |-> TRUE, shares |-> FALSE]>> /\ abs = << <<>> >> /\ n = 0
Add(o, p) ==
    LET x == objs[o]
        own == x.shares
        a == IF own THEN Len(lists) + 1 ELSE x.at
        l == Append(lists[x.at], p) IN
    /\ lists' = IF own THEN Append(lists, l) ELSE [lists EXCEPT ![a] = l]
    /\ objs' = [objs EXCEPT ![o] = [at |-> a, end |-> More(x.end, p + 1), sorted |-> FALSE, shares |-> FALSE]]
    /\ abs' = [abs EXCEPT ![o] = Append(@, p)]
Iterate(o) ==
    /\ ~objs[o].sorted
    /\ lists' = Append(lists, Sorted(lists[objs[o].at]))
    /\ objs' = [objs EXCEPT ![o].at = Len(lists) + 1, ![o].sorted = TRUE, ![o].shares = FALSE]
    /\ UNCHANGED abs
Copy(o) ==
    /\ Len(objs) < 3
    /\ lists' = IF V = "own" THEN Append(lists, lists[objs[o].at]) ELSE lists
    /\ objs' = Append(IF V = "cow" THEN [objs EXCEPT ![o].shares = TRUE] ELSE objs,
                      [objs[o] EXCEPT !.at = IF V = "own" THEN Len(lists) + 1 ELSE @, !.shares = V \in {"cow", "half"}])
    /\ abs' = Append(abs, abs[o])
Next == n < Steps /\ n' = n + 1 /\ \E o \in DOMAIN objs : (\E p \in 0..2 : Add(o, p)) \/ Iterate(o) \/ Copy(o)
End(s) == FoldLeft(LAMBDA m, p : More(m, p + 1), 0, s)
Inv == \A o \in DOMAIN objs : LET l == lists[objs[o].at] IN
          /\ Sorted(l) = Sorted(abs[o]) /\ objs[o].end = End(abs[o])
          /\ objs[o].sorted => l = Sorted(l)
=============================================================================
