------------------------------ MODULE MC_Alias ------------------------------
(***************************************************************************)
(* C11 at the level of references.  A store of immutable cells (fractions) *)
(* and two tracks, each a list of references to position cells with a      *)
(* common denominator.  Adding with a finer denominator replaces the       *)
(* references by ones to new cells; iterating hands references out to the  *)
(* user, who keeps them, and may put a cell handed out by one track into   *)
(* the other.  No step may change the value behind a reference anybody     *)
(* holds, nor the contents of the other track.                             *)
(* (With InPlace the rescaling writes into the cells: TLC then finds the   *)
(* violation; the check runs that too, as evidence that the model can see  *)
(* the bug.)                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, IOUtils
InPlace == IOEnv.INPLACE = "1"
MaxSteps == 5
VARIABLES store,     \* cell number -> <<n, d>>
          tracks,    \* 1..2 -> [refs, den]
          held,      \* references in the hands of the user
          born,      \* cell number -> <<n, d>> when first handed out or created by the user
          abs,       \* 1..2 -> multiset of positions (as sequence of fractions over 8)
          steps, hist
vars == <<store, tracks, held, born, abs, steps, hist>>
User == <<<<0, 1>>, <<1, 2>>, <<3, 4>>, <<1, 8>>>>
Eighths(c) == c[1] * (8 \div c[2])
Init == /\ store = User /\ tracks = [i \in 1..2 |-> [refs |-> <<>>, den |-> 1]]
        /\ held = 1..4 /\ born = User /\ abs = [i \in 1..2 |-> <<>>] /\ steps = 0 /\ hist = <<>>
\* scale cell c to denominator d
Scaled(c, d) == <<c[1] * (d \div c[2]), d>>
Add(t, r) ==
    LET pos == store[r]
        tr == tracks[t]
        d == IF pos[2] > tr.den THEN pos[2] ELSE tr.den
        n0 == Len(store)
        \* rescaled cells, new ones unless InPlace
        st1 == IF d = tr.den THEN store
               ELSE IF InPlace THEN [i \in DOMAIN store |-> IF i \in ToSet(tr.refs) THEN Scaled(store[i], d) ELSE store[i]]
               ELSE store \o [i \in 1..Len(tr.refs) |-> Scaled(store[tr.refs[i]], d)]
        refs1 == IF d = tr.den \/ InPlace THEN tr.refs ELSE [i \in 1..Len(tr.refs) |-> n0 + i]
        \* the position itself: the same cell if it has the denominator already, as the code may do
        st2 == IF pos[2] = d THEN st1 ELSE Append(st1, Scaled(pos, d))
        ref == IF pos[2] = d THEN r ELSE Len(st1) + 1
    IN /\ store' = st2
       /\ tracks' = [tracks EXCEPT ![t] = [refs |-> Append(refs1, ref), den |-> d]]
       /\ abs' = [abs EXCEPT ![t] = Append(@, Eighths(pos))]
       /\ born' = born \o [i \in 1..(Len(st2) - Len(born)) |-> st2[Len(born) + i]]
       /\ hist' = Append(hist, 10 * t + r)
       /\ UNCHANGED held
Hand(t) == /\ held' = held \cup ToSet(tracks[t].refs) /\ hist' = Append(hist, t)
           /\ UNCHANGED <<store, tracks, born, abs>>
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \E t \in 1..2 : Hand(t) \/ \E r \in held : Add(t, r)
Spec == Init /\ [][Next]_vars
HeldKeepTheirValue == \A r \in held : store[r] = born[r]
TracksSeparate == \A t \in 1..2 : [i \in 1..Len(tracks[t].refs) |-> Eighths(store[tracks[t].refs[i]])] = abs[t]
Inv == HeldKeepTheirValue /\ TracksSeparate
=============================================================================
