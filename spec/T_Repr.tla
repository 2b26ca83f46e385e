------------------------------- MODULE T_Repr -------------------------------
(* C25: printed forms, and what evaluating them gives. *)
EXTENDS TraceBase, Texts
VARIABLE l
TextIs(o, x) == IF o.t = "text" THEN o.c = x ELSE FALSE
Ents(s) == [i \in 1..Len(s) |-> EntryOf(s[i])]
SameNote(a, b) == a.p = b.p /\ a.d.n = b.d.n /\ a.d.d = b.d.d /\ Canon(a.v) = Canon(b.v)
Fails(c) ==
    LET o == c.obs v == c.v IN
    CASE c.k = "tone" -> Broken(<< <<"repr of a tone", IF o.t = "tone" THEN o.p = v.p ELSE FALSE>>, <<"text of a tone", TextIs(c.str, Spell(v.p, FALSE))>> >>)
      [] c.k = "sig" -> Broken(<< <<"repr of a signature", IF o.t = "sig" THEN o.n = v.n /\ o.d = v.d ELSE FALSE>>, <<"text of a signature", TextIs(c.str, SigText(v))>> >>)
      [] c.k = "note" -> Broken(<< <<"repr of a note", IF o.t = "note" THEN SameNote(o, v) ELSE FALSE>>, <<"text of a note", TextIs(c.str, NoteText(v))>> >>)
      [] c.k = "track" -> Broken(<< <<"repr of a track", IF o.t = "track" THEN o.sig.n = v.sig.n /\ o.sig.d = v.sig.d /\ SameBag(Ents(o.l), Ents(v.l)) ELSE FALSE>>,
                                    <<"rebuilt track is not equal", IF c.eq.t = "bool" THEN c.eq.b ELSE FALSE>>,
                                    <<"text of a track", TextIs(c.str, TrackText(v.sig, Len(v.l)))>> >>)
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), Trace[l].k # "track" \/ Len(Trace[l].v.l) > 0) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
