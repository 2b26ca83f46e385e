------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Writing a track as a format-0 file: what a file has to say for a given  *)
(* track and settings, and the writer as a transition system that puts out *)
(* such a file byte by byte, in any order of simultaneous events the       *)
(* guarantees allow.                                                       *)
(*   settings  c : [ppq, ch, mc (signed), bpm (fraction)]                  *)
(*   track     t : [sig (fraction), ents]                                  *)
(***************************************************************************)
EXTENDS Smf, Tracks

Ticks(s, ppq) == CFloorMul(s, 4 * ppq)
MidiPitch(p, mc) == IAdd(IntOf(60), ISub(p, mc))
InRange(x) == IF IIsSmall(x) THEN IToInt(x) \in 0..127 ELSE FALSE

\* floor(127 v); velocities are floats, so v within 2^-47 below n/127 counts as n/127
Level(v) == ToInt(BShr(BAdd(BShl(BMulSmall(v.n, 127), 40), BPow2(v.e)), v.e + 40))
\* v is n/127 up to float rounding
OnLevel(v) == BLe(BShr(v.n, v.e), One) /\
              LET k == Big(Level(v))
                  a == BMulSmall(v.n, 127)
                  b == BShl(k, v.e)
                  diff == IF BLe(b, a) THEN BSub(a, b) ELSE BSub(b, a)
              IN BLe(BShl(diff, 40), BPow2(v.e))

OnTick(e, c) == Ticks(e.at, c.ppq)
Len4(e, c) == Ticks(e.d, c.ppq)
OffTick(e, c) == BAdd(OnTick(e, c), Len4(e, c))

\* microseconds per quarter: us = floor(60000000/bpm), allowing for float rounding when 60000000/bpm is
\* within a hair of a whole number
SixtyM == <<1792, 2360, 3>>         \* 60000000
TempoOk(us, bpm) ==
    LET num == BMul(SixtyM, bpm.d)
        hair == BShr(num, 40)
    IN BLe(BMul(Big(us), bpm.n), BAdd(num, hair)) /\ BLt(num, BAdd(BMul(BAdd(Big(us), One), bpm.n), hair))
\* fits in 24 bits and is at least one: sure to fit, sure not to fit
TempoFits(bpm) == LET num == BMul(SixtyM, bpm.d) IN
                  BLe(bpm.n, num) /\ BLt(BAdd(num, BShr(num, 40)), BShl(bpm.n, 24))
TempoTooSlow(bpm) == LET num == BMul(SixtyM, bpm.d) IN BLt(BAdd(BShl(bpm.n, 24), BShr(num, 40)), num)

SigFits(sig) == BLe(sig.n, Big(255)) /\ Log2(sig.d) <= 255
TonesFit(t, c) == \A i \in DOMAIN t.ents : InRange(MidiPitch(t.ents[i].p, c.mc))
Limit == BPow2(28)
\* no gap between consecutive events reaches 2^28 pulses, the most a delta time can say
GapsFit(t, c) ==
    \/ \A i \in DOMAIN t.ents : BLt(OffTick(t.ents[i], c), Limit)
    \/ LET E == {<<>>} \cup {OnTick(t.ents[i], c) : i \in DOMAIN t.ents} \cup {OffTick(t.ents[i], c) : i \in DOMAIN t.ents} IN
       \A x \in E : x # <<>> => \E y \in E : BLt(y, x) /\ BLt(BSub(x, y), Limit)
Expressible(t, c) == TonesFit(t, c) /\ SigFits(t.sig) /\ TempoFits(c.bpm)
Inexpressible(t, c) == ~TonesFit(t, c) \/ ~SigFits(t.sig) \/ TempoTooSlow(c.bpm) \/ ~GapsFit(t, c)
SettingsOk(ppq, ch) == ppq \in 1..32767 /\ ch \in 0..15

\* what the file must say
OnEvent(e, c) == [k |-> "on", c |-> c.ch, p |-> IToInt(MidiPitch(e.p, c.mc)), v |-> Level(e.v), t |-> OnTick(e, c)]
OffEvent(e, c) == [k |-> "off", c |-> c.ch, p |-> IToInt(MidiPitch(e.p, c.mc)), t |-> OffTick(e, c)]
Ons(t, c) == [i \in 1..Len(t.ents) |-> OnEvent(t.ents[i], c)]
Offs(t, c) == [i \in 1..Len(t.ents) |-> OffEvent(t.ents[i], c)]

Overlap(a, b) == /\ a.p = b.p
                 /\ CLt(a.at, EntryEnd(b)) /\ CLt(b.at, EntryEnd(a))
\* a note of no length overlaps notes strictly around it, and that is covered by Overlap too
Clean(t) == \A p \in {t.ents[i].p : i \in DOMAIN t.ents} :
                LET es == SelectSeq(t.ents, LAMBDA e : e.p = p) IN
                \A i \in DOMAIN es : \A j \in (i + 1)..Len(es) : ~Overlap(es[i], es[j])
Audible(t) == \A i \in DOMAIN t.ents : Level(t.ents[i].v) >= 1

\* the notes a clean, audible track must be heard as
Heard(e, c) == [c |-> c.ch, p |-> IToInt(MidiPitch(e.p, c.mc)), v |-> Level(e.v), on |-> OnTick(e, c), len |-> Len4(e, c)]
HeardAs(t, c) == [i \in 1..Len(t.ents) |-> Heard(t.ents[i], c)]

\* on the grid: whole ticks and multiples of 1/16384
OnGridTime(s, ppq) == CWhole(s, 4 * ppq) /\ s.e <= 14
OnGrid(t, c) == \A i \in DOMAIN t.ents : OnGridTime(t.ents[i].at, c.ppq) /\ OnGridTime(t.ents[i].d, c.ppq)

----------------------------------------------------------------------------
(* Judging a file against a track. *)

NoteEv(ev, kind) == SelectSeq(ev, LAMBDA e : e.k = kind)
Strip(e) == [k |-> e.k, c |-> e.c, p |-> e.p, t |-> e.t]
StripAll(s) == [i \in 1..Len(s) |-> Strip(s[i])]

WellFormedFile(s, c) == <<
    <<"not a complete file: " \o EndReason(s), Complete(s)>>,
    <<"header chunk of other than 6 bytes", s.hsize = 6>>,
    <<"several headers", s.hdr = 1>>,
    <<"other than one track chunk", s.trk = 1>>,
    <<"other chunks", s.other = 0>>,
    <<"bytes the format leaves undefined", s.soft = {}>>,
    <<"pulses per quarter", s.div = c.ppq>>,
    <<"delta time of more than four bytes", s.maxvl <= 4>> >>

\* per pitch and channel: never fewer ons than offs so far, and equally many at the end
BalanceStep(a, e) ==
    IF ~a.ok THEN a
    ELSE LET key == <<e.c, e.p>>
             n == IF key \in DOMAIN a.n THEN a.n[key] ELSE 0
             m == IF e.k = "on" THEN n + 1 ELSE n - 1
         IN [ok |-> m >= 0, n |-> [x \in DOMAIN a.n \cup {key} |-> IF x = key THEN m ELSE a.n[x]]]
Balance(ev) == FoldLeft(BalanceStep, [ok |-> TRUE, n |-> [x \in {} |-> 0]], NoteEvents(ev))
Balanced(ev) == LET b == Balance(ev) IN b.ok /\ \A x \in DOMAIN b.n : b.n[x] = 0

Sigs(ev) == SelectSeq(ev, LAMBDA e : e.k = "sig")
Tempos(ev) == SelectSeq(ev, LAMBDA e : e.k = "tempo")

SaysSignature(ev, sig) ==
    LET s == Sigs(ev) IN
    IF Len(s) # 1 THEN FALSE
    ELSE s[1].c = -1 /\ s[1].t = <<>> /\ Big(s[1].nn) = sig.n /\ s[1].dd = Log2(sig.d) /\ s[1].cc = 24 /\ s[1].bb = 8
SaysTempo(ev, bpm) ==
    LET s == Tempos(ev) IN
    IF Len(s) # 1 THEN FALSE ELSE s[1].t = <<>> /\ TempoOk(s[1].us, bpm)

Faithful(s, t, c) == <<
    <<"not a complete file", Complete(s)>>,
    <<"note-ons", SameBag(NoteEv(s.ev, "on"), Ons(t, c))>>,
    <<"note-offs", SameBag(StripAll(NoteEv(s.ev, "off")), Offs(t, c))>>,
    <<"time signature", SaysSignature(s.ev, t.sig)>>,
    <<"tempo", SaysTempo(s.ev, c.bpm)>>,
    <<"a note of a clean track is cut or swallowed", (Clean(t) /\ Audible(t)) => SameBag(Pair(s.ev), HeardAs(t, c))>> >>

----------------------------------------------------------------------------
(* Byte encodings, for the writer as a transition system. *)
Vlq(n) == IF n < 128 THEN <<n>>
          ELSE IF n < 16384 THEN <<128 + (n \div 128), n % 128>>
          ELSE IF n < 2097152 THEN <<128 + (n \div 16384), 128 + ((n \div 128) % 128), n % 128>>
          ELSE <<128 + (n \div 2097152), 128 + ((n \div 16384) % 128), 128 + ((n \div 128) % 128), n % 128>>
Be32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Be16(n) == <<n \div 256, n % 256>>
HeaderBytes(ppq) == MThd \o Be32(6) \o <<0, 0, 0, 1>> \o Be16(ppq)
TrackChunk(body) == MTrk \o Be32(Len(body)) \o body
SigBytes(nn, dd) == <<0, 255, 88, 4, nn, dd, 24, 8>>
TempoBytes(us) == <<0, 255, 81, 3, us \div 65536, (us \div 256) % 256, us % 256>>
EotBytes == <<0, 255, 47, 0>>
FileBytes(ppq, body) == HeaderBytes(ppq) \o TrackChunk(body)

\* one way of writing a track as a function: notes in order of position and note, their events by time
NoteOrder(a, b) == CLt(a.at, b.at) \/ (a.at = b.at /\ NoteCmp(a, b) < 0)
Events(t, c) ==
    LET es == SortSeq(t.ents, NoteOrder)
        raw == [i \in 1..(2 * Len(es)) |-> LET e == es[(i + 1) \div 2] IN
                  [i |-> i, t |-> IF i % 2 = 1 THEN OnTick(e, c) ELSE OffTick(e, c),
                   b |-> <<(IF i % 2 = 1 THEN 144 ELSE 128) + c.ch, IToInt(MidiPitch(e.p, c.mc)), IF i % 2 = 1 THEN Level(e.v) ELSE 64>>]]
    IN SortSeq(raw, LAMBDA a, b : BLt(a.t, b.t) \/ (a.t = b.t /\ a.i < b.i))
Tempo(bpm) == BDivSmall(BMul(SixtyM, bpm.d), ToInt(bpm.n))[1]         \* small whole nominators only
WriteBytes(t, c) ==
    LET ev == Events(t, c)
        one(i) == Vlq(ToInt(BSub(ev[i].t, IF i = 1 THEN <<>> ELSE ev[i - 1].t))) \o ev[i].b
    IN FileBytes(c.ppq, SigBytes(ToInt(t.sig.n), Log2(t.sig.d)) \o TempoBytes(ToInt(Tempo(c.bpm)))
                        \o FoldLeft(LAMBDA a, i : a \o one(i), <<>>, Indices(Len(ev))) \o EotBytes)
=============================================================================
