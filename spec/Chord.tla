-------------------------------- MODULE Chord --------------------------------
(* The chord library: what each name denotes, in semitones above the base,   *)
(* and the parameters of the notes.                                          *)
EXTENDS Notes

Table == <<
    <<{"major", "maj"}, <<0, 4, 7>>>>,
    <<{"minor", "min"}, <<0, 3, 7>>>>,
    <<{"augmented", "aug"}, <<0, 4, 8>>>>,
    <<{"diminished", "dim"}, <<0, 3, 6>>>>,
    <<{"suspended4", "sus4"}, <<0, 5, 7>>>>,
    <<{"suspended2", "sus2"}, <<0, 2, 7>>>>,
    <<{"major7", "maj7"}, <<0, 4, 7, 11>>>>,
    <<{"minor7", "min7"}, <<0, 3, 7, 10>>>>,
    <<{"dominant7", "dom7"}, <<0, 4, 7, 10>>>>,
    <<{"dominant7b5", "dom7b5"}, <<0, 4, 6, 10>>>>,
    <<{"diminished7", "dim7"}, <<0, 3, 6, 9>>>>,
    <<{"minor7b5", "min7b5"}, <<0, 3, 6, 10>>>>,
    <<{"diminished_major7"}, <<0, 3, 6, 11>>>>,
    <<{"minor_major7"}, <<0, 3, 7, 11>>>>,
    <<{"augmented_major7", "major7s5", "maj7s5"}, <<0, 4, 8, 11>>>>,
    <<{"augmented_minor7", "augmented7", "aug7"}, <<0, 4, 8, 10>>>>,
    <<{"major9", "maj9"}, <<0, 4, 7, 11, 14>>>>,
    <<{"minor9", "min9"}, <<0, 3, 7, 10, 14>>>>,
    <<{"dominant9", "dom9"}, <<0, 4, 7, 10, 14>>>>,
    <<{"dominant_minor9", "min7b9"}, <<0, 4, 7, 10, 13>>>>,
    <<{"minor69", "min69"}, <<0, 4, 7, 9, 14>>>>,         \* as shipped, titled "6/9"
    <<{"added9", "add9"}, <<0, 4, 14>>>>,                 \* as shipped, without the fifth
    <<{"major11", "maj11"}, <<0, 4, 7, 11, 14, 17>>>>,
    <<{"minor11", "min11"}, <<0, 3, 7, 10, 14, 17>>>>,
    <<{"dominant11", "dom11"}, <<0, 4, 7, 10, 14, 17>>>> >>

Names == UNION {Table[i][1] : i \in DOMAIN Table}
Intervals(name) == Table[CHOOSE i \in DOMAIN Table : name \in Table[i][1]][2]

Quarter == [n |-> <<1>>, d |-> <<4>>]
ThreeQuarters == [n |-> <<3>>, d |-> <<4>>]

\* base: [kind, p, d, v] (d, v of the base note, if it is one); dur, vel: given, or "none"
Duration(base, dur) == IF dur.t # "none" THEN [n |-> dur.n, d |-> dur.d] ELSE IF base.kind = "note" THEN base.d ELSE Quarter
Velocity(base, vel) == IF vel.t # "none" THEN [n |-> vel.n, d |-> vel.d] ELSE IF base.kind = "note" THEN base.v ELSE ThreeQuarters
ChordOf(name, base, dur, vel) ==
    LET iv == Intervals(name) IN
    [i \in 1..Len(iv) |-> [p |-> IAdd(base.p, IntOf(iv[i])), d |-> Duration(base, dur), v |-> Velocity(base, vel)]]
=============================================================================
