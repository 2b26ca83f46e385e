------------------------------- MODULE Reading -------------------------------
(* What a reader has to make of a file, as conditions on the track observed. *)
EXTENDS Writer

IsErr(o, e) == IF o.t = "err" THEN o.e = e ELSE FALSE
ObsWF(o) == WellFormed(o.sig) /\ \A i \in DOMAIN o.l : NoteWF(o.l[i]) /\ WellFormed(o.l[i].at)
ObsOf(o) == [sig |-> [n |-> o.sig.n, d |-> o.sig.d], ents |-> [i \in 1..Len(o.l) |-> EntryOf(o.l[i])]]

\* observed notes as [at, p, d, lv]
Heard4(e) == [at |-> e.at, p |-> e.p, d |-> e.d, lv |-> Level(e.v)]
ObsNotes(o) == [i \in 1..Len(o.l) |-> Heard4(EntryOf(o.l[i]))]
Levels(o) == \A i \in DOMAIN o.l : OnLevel(EntryOf(o.l[i]).v)
MustBe(ev, div, mc, chan) ==
    LET ps == SelectSeq(Pair(ev), LAMBDA x : chan = -1 \/ x.c = chan)
    IN [i \in 1..Len(ps) |-> Denote(ps[i], div, mc)]

SameSig(o, x) == LET f == SigFrac(x) IN
                 IF f.n = <<>> THEN o.sig.n = <<>> ELSE o.sig.n = f.n /\ o.sig.d = f.d
GreatestSigs(ev, C) == LET S == {ChannelSig(ev, ch) : ch \in C} IN
                       {x \in S : \A y \in S : Cmp(SigFrac(y), SigFrac(x)) <= 0}
SigGiven(o, ev, chan) ==
    LET C == Channels(ev) IN
    IF chan # -1 THEN SameSig(o, ChannelSig(ev, chan))
    ELSE IF C = {} THEN (\A i \in DOMAIN ev : ev[i].k = "sig" => ev[i].c = -1) => SameSig(o, ChannelSig(ev, 0))
    ELSE \E x \in GreatestSigs(ev, C) : SameSig(o, x)

SigOk(o, ev, chan) == SigGiven(o, ev, chan) \/ (PrefixStale(ev) /\ SigGiven(o, Lapse(ev), chan))
=============================================================================
