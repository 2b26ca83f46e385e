------------------------------- MODULE T_Track -------------------------------
(***************************************************************************)
(* C07..C10: recorded histories of Track operations against Tracks.  Each  *)
(* line is one call with its arguments and what it returned; the state is  *)
(* that of the abstract tracks, advanced by the specification's actions.   *)
(***************************************************************************)
EXTENDS TraceBase, Tracks

VARIABLES l,        \* line
          tr,       \* tracks by number
          snap      \* contents at the moment an open iteration began, by its number
vars == <<l, tr, snap>>

NotesOf(s) == [i \in 1..Len(s) |-> NoteOf(s[i])]
Where(c, t) == IF c.where.t = "none" THEN Length(t) ELSE Canon(c.where)
ListWF(o) == \A i \in DOMAIN o.l : NoteWF(o.l[i]) /\ WellFormed(o.l[i].at)
Entries(o) == [i \in 1..Len(o.l) |-> EntryOf(o.l[i])]
Done1(o) == o.t = "ok"

ListFails(o, ents) ==
    IF o.t # "list" THEN <<"iteration failed">>
    ELSE IF ~ListWF(o) THEN <<"malformed entries">>
    ELSE LET es == Entries(o) IN
         Broken(<< <<"notes and positions", Lists(es, ents)>>, <<"ascending", Prop = "C08" \/ Ascending(es)>> >>)

CountIs(o, n) == IF o.t = "int" THEN o.i = IntOf(n) ELSE FALSE
LengthIs(o, c) == IF o.t = "sig" THEN WellFormed(o) /\ Canon(o) = c ELSE FALSE
SigSame(o, s) == IF o.t = "sig" THEN o.n = s.n /\ o.d = s.d ELSE FALSE
BoolIs(o, b) == IF o.t = "bool" THEN o.b = b ELSE FALSE

\* the track after a refused addition: some notes before the offending one may have been placed
AfterBad(c, t) == {k \in 0..Len(c.pre) :
    LET u == AddAt(t, SubSeq(NotesOf(c.pre), 1, k), IF Len(c.pre) = 0 THEN CZero ELSE Where(c, t)) IN
    IF c.after.list.t = "list" /\ ListWF(c.after.list) THEN Lists(Entries(c.after.list), u.ents) ELSE FALSE}
BadFails(c, t) ==
    LET K == AfterBad(c, t) IN
    IF c.obs.t # "err" THEN <<"not refused: " \o c.what>>
    ELSE IF c.after.list.t # "list" THEN <<"iteration failed after refused " \o c.what>>
    ELSE IF K = {} THEN <<"contents changed by refused " \o c.what>>
    ELSE LET k == CHOOSE k \in K : \A j \in K : k <= j
             u == AddAt(t, SubSeq(NotesOf(c.pre), 1, k), IF Len(c.pre) = 0 THEN CZero ELSE Where(c, t)) IN
         Broken(<< <<"order after refused " \o c.what, Ascending(Entries(c.after.list))>>,
                   <<"count after refused " \o c.what, CountIs(c.after.count, Len(u.ents))>>,
                   <<"length after refused " \o c.what, LengthIs(c.after.length, Length(u))>>,
                   <<"time signature after refused " \o c.what, SigSame(c.after.sig, t.sig)>> >>)
Recovered(c, t) ==
    LET K == AfterBad(c, t) IN
    IF K = {} THEN t ELSE
    AddAt(t, SubSeq(NotesOf(c.pre), 1, CHOOSE k \in K : \A j \in K : k <= j), IF Len(c.pre) = 0 THEN CZero ELSE Where(c, t))

Set(id, t) == IF id <= Len(tr) THEN [tr EXCEPT ![id] = t] ELSE Append(tr, t)

Line(c) ==
    CASE c.op = "reset" -> tr' = <<>> /\ snap' = <<>> /\ Judge(l, <<>>, FALSE)
      [] c.op = "new" -> /\ tr' = Append(tr, EmptyTrack(c.sig)) /\ snap' = snap
                         /\ Judge(l, Broken(<< <<"new track", Done1(c.obs)>> >>), FALSE)
      [] c.op = "add" -> /\ tr' = Set(c.id, AddAt(tr[c.id], NotesOf(c.notes), Where(c, tr[c.id])))
                         /\ snap' = snap
                         /\ Judge(l, Broken(<< <<"addition failed", Done1(c.obs)>> >>), FALSE)
      \* the notes of track c.from, drawn from it during the addition
      [] c.op = "copy" -> /\ tr' = Set(c.id, AddAt(tr[c.id], EntryNotes(tr[c.from]), Where(c, tr[c.id])))
                          /\ snap' = snap
                          /\ Judge(l, Broken(<< <<"addition failed", Done1(c.obs)>> >>), FALSE)
      [] c.op = "bad" -> /\ tr' = Set(c.id, Recovered(c, tr[c.id])) /\ snap' = snap
                         /\ Judge(l, BadFails(c, tr[c.id]), TRUE)
      [] c.op = "iter" -> /\ UNCHANGED <<tr, snap>>
                          /\ Judge(l, ListFails(c.obs, tr[c.id].ents), Len(tr[c.id].ents) > 1)
      [] c.op = "count" -> /\ UNCHANGED <<tr, snap>>
                           /\ Judge(l, Broken(<< <<"count", CountIs(c.obs, Len(tr[c.id].ents))>> >>), FALSE)
      [] c.op = "length" -> /\ UNCHANGED <<tr, snap>>
                            /\ Judge(l, Broken(<< <<"length", LengthIs(c.obs, Length(tr[c.id]))>> >>), Len(tr[c.id].ents) > 1)
      [] c.op = "open" -> /\ tr' = tr /\ snap' = Append(snap, tr[c.id].ents)
                          /\ Judge(l, Broken(<< <<"iteration failed", Done1(c.obs)>> >>), FALSE)
      [] c.op = "drain" -> /\ UNCHANGED <<tr, snap>>
                           /\ Judge(l, ListFails(c.obs, snap[c.it]), Len(snap[c.it]) > 1)
      [] c.op = "eq" -> /\ UNCHANGED <<tr, snap>>
                        /\ LET s == SameTrack(tr[c.a], tr[c.b]) IN
                           Judge(l, Broken(<< <<"equality", BoolIs(c.obs.eq, s)>>, <<"inequality", BoolIs(c.obs.ne, ~s)>> >>), c.a # c.b)

Init == l = 1 /\ tr = <<>> /\ snap = <<>> /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Line(Trace[l]) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED <<tr, snap>>
=============================================================================
