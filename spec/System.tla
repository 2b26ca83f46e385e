------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The library as one state machine.  The state is a store of values, the  *)
(* objects a program holds; an operation takes values out of the store and *)
(* literals, and gives an outcome that may add values to the store.  Only  *)
(* an addition to a track replaces a value.                                *)
(*                                                                         *)
(*   Fails(S, c)  what is wrong with outcome c.obs of operation c in store S *)
(*   After(S, c)  the store afterwards                                     *)
(*                                                                         *)
(* An outcome is a function of the values of the operands - and, where the *)
(* guarantees leave a choice (order of simultaneous notes and events, the  *)
(* terms of a sum), the outcome observed resolves it.                      *)
(* Values: tone [p]; sig [n, d]; note [p, d, v]; track [sig, ents];        *)
(* file [b]; gone (an object the program has let go).                      *)
(***************************************************************************)
EXTENDS Reading, Chord, Velocity, Frequency, Texts

Clauses(pairs) == LET bad == SelectSeq(pairs, LAMBDA x : ~x[2]) IN [i \in 1..Len(bad) |-> bad[i][1]]
One1(name, b) == IF b THEN <<>> ELSE <<name>>

\* observations
OTone(o, p) == IF o.t = "tone" THEN o.p = p ELSE FALSE
OSigV(o, x) == IF o.t = "sig" THEN WellFormed(o) /\ Canon(o) = x ELSE FALSE
OSigX(o, s) == IF o.t = "sig" THEN o.n = s.n /\ o.d = s.d ELSE FALSE
OInt(o, x) == IF o.t = "int" THEN o.i = x ELSE FALSE
ONum(o, x) == IF o.t = "num" THEN Canon(o) = x ELSE FALSE
OText(o, x) == IF o.t = "text" THEN o.c = x ELSE FALSE
OBool(o, b) == IF o.t = "bool" THEN o.b = b ELSE FALSE
ORefused(o) == IsErr(o, "ValueError")
SameNoteX(x, n) == NoteWF(x) /\ x.p = n.p /\ x.d.n = n.d.n /\ x.d.d = n.d.d /\ Canon(x.v) = Canon(n.v)
ONote(o, n) == IF o.t = "note" THEN SameNoteX(o, n) ELSE FALSE
ONotes(o, ns) == IF o.t = "list" THEN Len(o.l) = Len(ns) /\ \A i \in DOMAIN ns : SameNoteX(o.l[i], ns[i]) ELSE FALSE
ObsEnts(o) == [i \in 1..Len(o.l) |-> EntryOf(o.l[i])]
OTrack(o, t) == IF o.t = "track" THEN ObsWF(o) /\ o.sig.n = t.sig.n /\ o.sig.d = t.sig.d /\ SameBag(ObsEnts(o), t.ents) /\ Ascending(ObsEnts(o)) ELSE FALSE
OEntries(o, es) == IF o.t = "list" THEN (\A i \in DOMAIN o.l : NoteWF(o.l[i]) /\ WellFormed(o.l[i].at)) /\ SameBag(ObsEnts(o), es) /\ Ascending(ObsEnts(o)) ELSE FALSE
OCmp(o, k) == OBool(o.eq, k = 0) /\ OBool(o.ne, k # 0) /\ OBool(o.lt, k < 0) /\ OBool(o.le, k <= 0) /\ OBool(o.gt, k > 0) /\ OBool(o.ge, k >= 0)

\* arguments: a reference into the store, a literal, or omitted
ToneArg(S, x) == CASE x.t = "ref" -> [ok |-> TRUE, p |-> S[x.id].p]
                   [] x.t = "int" -> [ok |-> TRUE, p |-> x.i]
                   [] x.t = "text" -> LET a == Parse(x.c) IN IF NotationAccepts(a) THEN [ok |-> TRUE, p |-> NotationPitch(a)] ELSE [ok |-> FALSE, p |-> IntOf(0)]
FracOf(x) == [n |-> x.n, d |-> x.d]
DurArg(S, x, default) == CASE x.t = "ref" -> FracOf(S[x.id])
                           [] x.t = "pair" -> FracOf(x)
                           [] x.t = "none" -> default
VelArg(x, default) == IF x.t = "none" THEN default ELSE FracOf(x)
FourFour == [n |-> <<4>>, d |-> <<4>>]
NoteVal(p, d, v) == [t |-> "note", p |-> p, d |-> d, v |-> v]

\* what a chord is built on
BaseArg(S, x) == IF x.t = "ref" /\ S[x.id].t = "note"
                 THEN [kind |-> "note", ok |-> TRUE, p |-> S[x.id].p, d |-> S[x.id].d, v |-> S[x.id].v]
                 ELSE LET a == ToneArg(S, x) IN [kind |-> "tone", ok |-> a.ok, p |-> a.p, d |-> Quarter, v |-> ThreeQuarters]
GivenDur(S, x) == IF x.t = "none" THEN [t |-> "none"] ELSE LET f == DurArg(S, x, Quarter) IN [t |-> "frac", n |-> f.n, d |-> f.d]

TrackOfRef(S, i) == [sig |-> S[i].sig, ents |-> S[i].ents]
NotesAt(S, ids) == [i \in 1..Len(ids) |-> LET n == S[ids[i]] IN [p |-> n.p, d |-> Canon(n.d), v |-> Canon(n.v)]]
WhereArg(S, x, t) == IF x.t = "none" THEN Length(t) ELSE Canon(DurArg(S, x, Quarter))
Adding(S, c) ==
    LET t == TrackOfRef(S, c.a)
        ns == IF c.op = "copyin" THEN EntryNotes(TrackOfRef(S, c.b)) ELSE NotesAt(S, c.notes)
    IN AddAt(t, ns, WhereArg(S, c.where, t))

\* a track built with content: its notes are added one after the other
Filled(S, c) == FoldLeft(LAMBDA t, x : AddAt(t, NotesAt(S, <<x.note>>), WhereArg(S, x.where, t)), EmptyTrack(DurArg(S, c.sig, FourFour)), c.content)

CfgArg(c) == [ppq |-> c.cfg.ppq, ch |-> c.cfg.ch, mc |-> c.cfg.mc, bpm |-> c.cfg.bpm]
WriteFails(t, cfg, o) ==
    IF Inexpressible(t, cfg) THEN One1("not refused", o.t = "err")
    ELSE IF ~(Expressible(t, cfg) /\ GapsFit(t, cfg)) THEN <<>>
    ELSE IF o.t # "bytes" THEN <<"not written">>
    ELSE LET s == Run(o.b) IN Clauses(WellFormedFile(s, cfg) \o Faithful(s, t, cfg) \o << <<"unbalanced", Balanced(s.ev)>> >>)
ReadFails(b, mc, chan, o) ==
    LET s == Run(b) IN
    IF Open(s) THEN <<>>
    ELSE IF EndReason(s) # "" THEN One1("not refused", IsErr(o, "MIDIParsingError"))
    ELSE IF chan # -1 /\ chan \notin Channels(s.ev) THEN
        IF Channels(s.ev) = {} THEN One1("no note events", o.t = "track" \/ ORefused(o)) ELSE One1("missing channel", ORefused(o))
    ELSE IF o.t # "track" THEN <<"not read">>
    ELSE IF ~ObsWF(o) THEN <<"malformed track">>
    ELSE Clauses(<< <<"notes", SameBag(ObsNotes(o), MustBe(s.ev, s.div, mc, chan))>>, <<"velocity is not n/127", Levels(o)>>, <<"time signature", SigOk(o, s.ev, chan)>> >>)
RandFails(t, lo, hi, mean, var, o) ==
    IF o.t # "track" THEN <<"no track returned">>
    ELSE IF ~ObsWF(o) THEN <<"malformed track">>
    ELSE LET rs == ObsEnts(o) IN
      Clauses(<< <<"time signature", o.sig.n = t.sig.n /\ o.sig.d = t.sig.d>>, <<"positions, tones or durations", SameBag(BareAll(rs), BareAll(t.ents))>>,
                 <<"bounds", \A i \in DOMAIN rs : CLe(lo, rs[i].v) /\ CLe(rs[i].v, hi)>>,
                 <<"zero variance", var.n = <<>> => \A i \in DOMAIN rs : Close(rs[i].v, Clamp(mean, lo, hi))>> >>)

TextOf(x) == CASE x.t = "tone" -> Spell(x.p, FALSE)
               [] x.t = "sig" -> SigText(x)
               [] x.t = "note" -> NoteText(x)
               [] x.t = "track" -> TrackText(x.sig, Len(x.ents))
\* the object rebuilt from a printed form
SameObject(o, x) == CASE x.t = "tone" -> OTone(o, x.p)
                      [] x.t = "sig" -> OSigX(o, x)
                      [] x.t = "note" -> ONote(o, x)
                      [] x.t = "track" -> OTrack(o, x)
SigGood(n, d) == n.s = 0 /\ d.s = 0 /\ IsPow2(d.m)
IsEntry(o, t) == IF o.t = "pair" THEN /\ WellFormed(o.at) /\ NoteWF(o.note)
                                      /\ At(NoteOf(o.note), Canon(o.at)) \in ToSet(t.ents) ELSE FALSE

Outcome(S, c) ==
    LET o == c.obs
        A == IF c.op \in {"threads", "tone", "parse", "sig", "note", "chord", "track", "trackof", "file"} THEN [t |-> "none"] ELSE S[c.a] IN
    CASE c.op = "tone" -> One1("tone", OTone(o, c.p))
      [] c.op = "parse" -> LET a == Parse(c.c) IN IF NotationAccepts(a) THEN One1("pitch", OTone(o, NotationPitch(a))) ELSE One1("refused", ORefused(o))
      [] c.op = "transpose" -> One1("pitch", OTone(o, IAdd(A.p, c.k)))
      [] c.op = "spell" -> One1("spelling", OText(o, Spell(A.p, c.down = 1)))
      [] c.op = "octave" -> One1("octave", OInt(o, Octave(A.p)))
      [] c.op = "freq" -> One1("frequency", IF o.t = "num" THEN FreqOk(o, c.base, IToInt(A.p) - 57) ELSE FALSE)
      [] c.op = "tonecmp" -> One1("order of tones", OCmp(o, ICmp(A.p, S[c.b].p)))
      [] c.op = "sig" -> IF SigGood(c.n, c.d) THEN One1("signature", OSigX(o, [n |-> c.n.m, d |-> c.d.m])) ELSE One1("refused", ORefused(o))
      [] c.op = "sum" -> One1("sum", OSigV(o, CAdd(Canon(A), Canon(S[c.b]))))
      [] c.op = "prod" -> One1("product", OSigV(o, CMul(Canon(A), Canon(S[c.b]))))
      [] c.op = "abs" -> One1("absolute value", OSigV(o, Canon(A)))
      [] c.op = "norm" -> One1("lowest terms", LET x == Canon(A) IN OSigX(o, [n |-> x.n, d |-> BPow2(x.e)]))
      [] c.op = "to" -> IF c.d.s = 0 /\ IsPow2(c.d.m) /\ BLe(A.d, c.d.m) THEN One1("conversion", OSigV(o, Canon(A)) /\ o.d = c.d.m) ELSE One1("refused", ORefused(o))
      [] c.op = "sigcmp" -> One1("order of signatures", OCmp(o, Cmp(A, S[c.b])))
      [] c.op = "note" -> LET p == ToneArg(S, c.tone) v == VelArg(c.vel, ThreeQuarters) IN
            IF p.ok /\ VelocityOk(Canon(v)) THEN One1("note", ONote(o, NoteVal(p.p, DurArg(S, c.dur, Quarter), v))) ELSE One1("refused", ORefused(o))
      [] c.op = "toneof" -> One1("tone of a note", OTone(o, A.p))
      [] c.op = "durof" -> One1("duration of a note", OSigX(o, A.d))
      [] c.op = "velof" -> One1("velocity of a note", ONum(o, Canon(A.v)))
      [] c.op = "ntrans" -> One1("transposed note", ONote(o, NoteVal(IAdd(A.p, c.k), A.d, A.v)))
      [] c.op = "ndur" -> One1("note with another duration", ONote(o, NoteVal(A.p, DurArg(S, c.dur, Quarter), A.v)))
      [] c.op = "nvel" -> IF VelocityOk(Canon(c.vel)) THEN One1("note with another velocity", ONote(o, NoteVal(A.p, A.d, FracOf(c.vel)))) ELSE One1("refused", ORefused(o))
      [] c.op = "notecmp" -> One1("order of notes", OCmp(o, NoteCmp(NoteOf(A), NoteOf(S[c.b]))))
      [] c.op = "chord" -> LET b == BaseArg(S, c.base) IN
            IF b.ok THEN One1("chord", ONotes(o, ChordOf(c.name, b, GivenDur(S, c.dur), c.vel))) ELSE One1("refused", ORefused(o))
      [] c.op = "track" -> One1("new track", OTrack(o, [sig |-> DurArg(S, c.sig, FourFour), ents |-> <<>>]))
      [] c.op = "trackof" -> One1("new track with content", OTrack(o, Filled(S, c)))
      [] c.op \in {"add", "copyin"} -> One1("addition", o.t = "ok")
      [] c.op = "badadd" -> One1("refused", o.t = "err")
      [] c.op = "iter" -> One1("contents", OEntries(o, A.ents))
      [] c.op = "pick" -> One1("entry", IsEntry(o, A))
      \* an iteration begun and left at its first entry
      [] c.op = "peek" -> One1("first entry", IF A.ents = <<>> THEN o.t = "none" ELSE IsEntry(o, A) /\ \A i \in DOMAIN A.ents : CLe(Canon(o.at), A.ents[i].at))
      [] c.op = "count" -> One1("count", OInt(o, IntOf(Len(A.ents))))
      [] c.op = "length" -> One1("length", OSigV(o, Length(TrackOfRef(S, c.a))))
      [] c.op = "tsig" -> One1("time signature", OSigX(o, A.sig))
      [] c.op = "teq" -> LET b == SameTrack(TrackOfRef(S, c.a), TrackOfRef(S, c.b)) IN One1("equality of tracks", OBool(o.eq, b) /\ OBool(o.ne, ~b))
      [] c.op = "text" -> One1("text form", OText(o, TextOf(A)))
      [] c.op = "repr" -> One1("printed form", SameObject(o, A))
      [] c.op = "copy" -> One1("copy", SameObject(o, A))
      [] c.op = "rand" -> RandFails(TrackOfRef(S, c.a), Canon(c.lo), Canon(c.hi), Canon(c.mean), c.var, o)
      [] c.op = "write" -> WriteFails(TrackOfRef(S, c.a), CfgArg(c), o)
      [] c.op = "read" -> ReadFails(A.b, c.mc, c.chan, o)
      [] c.op = "file" -> One1("bytes", IF o.t = "bytes" THEN o.b = c.data ELSE FALSE)
      [] c.op = "drop" -> <<>>
      \* a call that changes nothing, given up somewhere in the middle: the interrupt reaches the caller (C32)
      [] c.op = "stopped" -> One1("interrupt", o.t = "err" /\ o.e = "Stopped")
      [] c.op = "threads" -> <<"the threads do not come to an end">>
Fails(S, c) == LET f == Outcome(S, c) IN [i \in 1..Len(f) |-> c.op \o ": " \o f[i]]

\* values an outcome adds to the store
ValueOf(o) == CASE o.t = "tone" -> [t |-> "tone", p |-> o.p]
                [] o.t = "sig" -> [t |-> "sig", n |-> o.n, d |-> o.d]
                [] o.t = "note" -> NoteVal(o.p, o.d, o.v)
                [] o.t = "track" -> [t |-> "track", sig |-> o.sig, ents |-> ObsEnts(o)]
                [] o.t = "bytes" -> [t |-> "file", b |-> o.b]
Makers == {"tone", "parse", "transpose", "sig", "sum", "prod", "abs", "norm", "to", "note", "toneof", "durof", "ntrans", "ndur", "nvel",
           "track", "trackof", "length", "tsig", "rand", "write", "read", "file", "repr", "copy"}
Adds(c) == IF c.op \in Makers /\ c.obs.t \in {"tone", "sig", "note", "track", "bytes"} THEN <<ValueOf(c.obs)>>
           ELSE IF c.op = "chord" /\ c.obs.t = "list" THEN [i \in 1..Len(c.obs.l) |-> NoteVal(c.obs.l[i].p, c.obs.l[i].d, c.obs.l[i].v)]
           ELSE IF c.op = "pick" /\ c.obs.t = "pair" THEN <<[t |-> "sig", n |-> c.obs.at.n, d |-> c.obs.at.d], NoteVal(c.obs.note.p, c.obs.note.d, c.obs.note.v)>>
           ELSE <<>>
After(S, c) ==
    (IF c.op \in {"add", "copyin"} /\ c.obs.t = "ok" THEN LET u == Adding(S, c) IN [S EXCEPT ![c.a] = [t |-> "track", sig |-> u.sig, ents |-> u.ents]]
     ELSE IF c.op = "drop" THEN [S EXCEPT ![c.a] = [t |-> "gone"]] ELSE S) \o Adds(c)
=============================================================================
