------------------------------- MODULE T_Chord -------------------------------
(* C21, C22: recorded chord calls. *)
EXTENDS TraceBase, Chord
VARIABLE l
Plain(x) == [p |-> x.p, d |-> [n |-> x.d.n, d |-> x.d.d], v |-> Canon(x.v)]
Want(x) == [p |-> x.p, d |-> [n |-> x.d.n, d |-> x.d.d], v |-> Canon(x.v)]
CallFails(c) ==
    IF c.name \notin Names THEN <<"unknown chord in the trace">>
    ELSE IF c.obs.t # "list" THEN <<"no chord: " \o c.name>>
    ELSE LET w == ChordOf(c.name, c.base, c.dur, c.vel) IN
         IF Len(w) # Len(c.obs.l) THEN <<"number of notes: " \o c.name>>
         ELSE Broken(<< <<"tones: " \o c.name, \A i \in DOMAIN w : c.obs.l[i].p = w[i].p>>,
                        <<"durations: " \o c.name, \A i \in DOMAIN w : c.obs.l[i].d.n = w[i].d.n /\ c.obs.l[i].d.d = w[i].d.d>>,
                        <<"velocities: " \o c.name, \A i \in DOMAIN w : Canon(c.obs.l[i].v) = Canon(w[i].v)>> >>)
SameFails(c) == Broken(<< <<"generated and shipped disagree: " \o c.name, c.obs = c.gen>> >>)
NamesFails(c) == Broken(<< <<"functions of the generated module", ToSet(c.gen) = ToSet(c.obs)>>,
                           <<"chords missing", Names \subseteq ToSet(c.gen)>>,
                           <<"generator failed", c.rc = 0>> >>)
Fails(c) == CASE c.k = "call" -> CallFails(c) [] c.k = "same" -> SameFails(c) [] c.k = "names" -> NamesFails(c)
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), TRUE) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
