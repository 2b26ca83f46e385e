----------------------------- MODULE MC_TrackEq -----------------------------
(***************************************************************************)
(* Equality of tracks by walking both sorted contents in step, as the code *)
(* does, against equality of signatures and bags of entries: exhaustively  *)
(* for pairs of tracks of up to three entries.                             *)
(***************************************************************************)
EXTENDS Tracks, TLC
Ps == {<<0, 1>>, <<1, 2>>, <<2, 4>>}
Ns == {<<0, 1, 4>>, <<0, 2, 8>>, <<1, 0, 1>>}
E(p, n) == [at |-> Canon(Frac(p[1], p[2])), p |-> IntOf(n[1]), d |-> Canon(Frac(n[2], n[3])), v |-> CUnit]
Ent == {E(p, n) : p \in Ps, n \in Ns}
Sigs == {Frac(4, 4), Frac(2, 2), Frac(3, 4)}
VARIABLES a, b, i, verdict
vars == <<a, b, i, verdict>>
Init == /\ a \in {EmptyTrack(s) : s \in Sigs} /\ b = EmptyTrack(Frac(4, 4)) /\ i = 0 /\ verdict = "?"
Add(t) == {[t EXCEPT !.ents = Append(@, e)] : e \in Ent}
Build == /\ i = 0 /\ verdict = "?"
         /\ \/ Len(a.ents) < 3 /\ a' \in Add(a) /\ b' = b
            \/ Len(b.ents) < 3 /\ b' \in Add(b) /\ a' = a
         /\ UNCHANGED <<i, verdict>>
Lt(x, y) == LET c == CCmp(x.at, y.at) IN c < 0 \/ (c = 0 /\ NoteCmp(x, y) < 0)
Sorted(t) == SortSeq(t.ents, Lt)
Begin == /\ i = 0 /\ verdict = "?"
         /\ i' = 1
         /\ verdict' = IF Canon(a.sig) # Canon(b.sig) \/ Len(a.ents) # Len(b.ents) THEN "no" ELSE "?"
         /\ UNCHANGED <<a, b>>
Compare == /\ i > 0 /\ verdict = "?"
           /\ IF i > Len(a.ents) THEN verdict' = "yes" /\ i' = i
              ELSE LET x == Sorted(a)[i] y == Sorted(b)[i] IN
                   IF x # y THEN verdict' = "no" /\ i' = i ELSE verdict' = "?" /\ i' = i + 1
           /\ UNCHANGED <<a, b>>
Next == Build \/ Begin \/ Compare
Inv == /\ verdict = "yes" => SameTrack(a, b)
       /\ verdict = "no" => ~SameTrack(a, b)
       /\ SameTrack(a, b) = SameTrack(b, a)
       /\ SameTrack(a, a)
=============================================================================
