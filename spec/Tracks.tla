------------------------------- MODULE Tracks -------------------------------
(***************************************************************************)
(* Tracks as an abstract state machine.  A track is its time signature and *)
(* the sequence of entries in the order they were added; everything a user *)
(* can observe (order, count, length, equality) is a function of that.     *)
(***************************************************************************)
EXTENDS Notes

EmptyTrack(sig) == [sig |-> sig, ents |-> <<>>]

Length(t) == FoldLeft(LAMBDA m, x : CMax(m, EntryEnd(x)), CZero, t.ents)

At(note, pos) == [at |-> pos, p |-> note.p, d |-> note.d, v |-> note.v]

\* all notes of one addition go to the same place
AddAt(t, notes, pos) == [t EXCEPT !.ents = @ \o [i \in 1..Len(notes) |-> At(notes[i], pos)]]
AppendNotes(t, notes) == AddAt(t, notes, Length(t))

EntryNotes(t) == [i \in 1..Len(t.ents) |-> [p |-> t.ents[i].p, d |-> t.ents[i].d, v |-> t.ents[i].v]]

\* what an iteration may yield
Lists(obs, ents) == SameBag(obs, ents)

SameTrack(a, b) == Canon(a.sig) = Canon(b.sig) /\ SameBag(a.ents, b.ents)
=============================================================================
