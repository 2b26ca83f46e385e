------------------------------- MODULE T_Midi -------------------------------
(***************************************************************************)
(* C12..C20, C24: recorded writing and reading of MIDI against Writer and  *)
(* Smf.  Lines are independent calls.                                      *)
(***************************************************************************)
EXTENDS TraceBase, Reading

VARIABLE l

TrackOf(c) == [sig |-> c.sig, ents |-> [i \in 1..Len(c.l) |-> EntryOf(c.l[i])]]
CfgOf(c) == [ppq |-> c.cfg.ppq, ch |-> c.cfg.ch, mc |-> c.cfg.mc, bpm |-> c.cfg.bpm]

----------------------------------------------------------------------------
(* C12, C13, C14: writing *)

DumpFails(c) ==
    LET t == TrackOf(c) cfg == CfgOf(c) IN
    IF Prop = "C14" THEN
        IF Inexpressible(t, cfg) THEN
            Broken(<< <<"not refused", c.obs.t = "err">>, <<"bytes reached the output", c.left = 0>> >>)
        ELSE IF Expressible(t, cfg) /\ GapsFit(t, cfg) THEN
            Broken(<< <<"expressible track not written", c.obs.t = "bytes">> >>)
        ELSE <<>>
    ELSE IF ~(Expressible(t, cfg) /\ GapsFit(t, cfg)) THEN <<>>
    ELSE IF c.obs.t # "bytes" THEN <<"expressible track not written">>
    ELSE LET s == Run(c.obs.b) IN
         IF Prop = "C12" THEN Broken(Append(WellFormedFile(s, cfg), <<"note-ons and note-offs do not match", Balanced(s.ev)>>))
         ELSE Broken(Faithful(s, t, cfg))

CtorFails(c) ==
    LET ok == IF IIsSmall(c.ppq) /\ IIsSmall(c.ch) THEN SettingsOk(IToInt(c.ppq), IToInt(c.ch)) ELSE FALSE IN
    IF ok THEN Broken(<< <<"valid settings refused", c.obs.t = "ok">> >>)
    ELSE Broken(<< <<"invalid settings not refused with ValueError", IsErr(c.obs, "ValueError")>> >>)

----------------------------------------------------------------------------
(* C17, C18, C19: reading *)

LoadFails(c) ==
    LET s == Run(c.b)
        reason == EndReason(s)
        o == c.obs
        total == o.t = "track" \/ IsErr(o, "MIDIParsingError") \/ (c.chan # -1 /\ IsErr(o, "ValueError"))
    IN IF Open(s) THEN Broken(<< <<"neither a track nor a MIDI parsing error", total>> >>)
       ELSE IF reason # "" THEN Broken(<< <<"not refused as MIDI parsing error: " \o reason, IsErr(o, "MIDIParsingError")>> >>)
       ELSE IF c.chan # -1 /\ c.chan \notin Channels(s.ev) THEN
            IF Channels(s.ev) = {} THEN Broken(<< <<"no note events", o.t = "track" \/ IsErr(o, "ValueError")>> >>)
            ELSE Broken(<< <<"missing channel not refused with ValueError", IsErr(o, "ValueError")>> >>)
       ELSE IF o.t # "track" THEN <<"valid file not read">>
       ELSE IF ~ObsWF(o) THEN <<"malformed track">>
       ELSE Broken(<< <<"notes", SameBag(ObsNotes(o), MustBe(s.ev, s.div, c.mc, c.chan))>>,
                      <<"velocity is not n/127", Levels(o)>>,
                      <<"time signature", Prop = "C18" \/ SigOk(o, s.ev, c.chan)>> >>)
LoadNT(c) == LET s == Run(c.b) IN
             IF Prop = "C17" THEN EndReason(s) # "" \/ Open(s) ELSE IF Prop = "C19" THEN Cardinality(Channels(s.ev)) > 1 ELSE Len(Pair(s.ev)) > 0

----------------------------------------------------------------------------
(* C15, C16: round trips *)

ExactNote(e) == [at |-> e.at, p |-> e.p, d |-> e.d, lv |-> Level(e.v)]
\* 0 <= x - y < 1/(4 ppq) + 1/16384, multiplied out
Short(x, y, ppq) ==
    IF CLt(x, y) THEN FALSE
    ELSE LET m == IF x.e > y.e THEN x.e ELSE y.e
             diff == BSub(BShl(x.n, m - x.e), BShl(y.n, m - y.e))       \* over 2^m
         IN BLt(BShl(BMulSmall(diff, ppq), 14), BShl(Big(4096 + ppq), m))
Pitches(es) == {es[i].p : i \in DOMAIN es}
ByPitch(es, p) == SelectSeq(es, LAMBDA e : e.p = p)
\* notes of one pitch by position, then duration (a note of no length precedes what starts with it)
Ordered(es) == SortSeq(es, LAMBDA a, b : CLt(a.at, b.at) \/ (a.at = b.at /\ CLt(a.d, b.d)))
\* notes of no length at one place may come back in any order
Near(es, os, ppq) ==
    LET a == Ordered(es) b == Ordered(os) IN
    /\ Len(a) = Len(b)
    /\ \A i \in DOMAIN a : Short(a[i].at, b[i].at, ppq) /\ Short(a[i].d, b[i].d, ppq)
    /\ SameBag([i \in 1..Len(a) |-> Level(a[i].v)], [i \in 1..Len(b) |-> Level(b[i].v)])
    /\ \A i \in DOMAIN a : (Len(SelectSeq(a, LAMBDA e : e.at = a[i].at)) = 1 /\ \A j \in DOMAIN b : j # i => b[j].at # b[i].at)
                             => Level(a[i].v) = Level(b[i].v)

RtFails(c) ==
    LET t == TrackOf(c) cfg == CfgOf(c) o == c.obs IN
    IF ~(Expressible(t, cfg) /\ GapsFit(t, cfg) /\ Clean(t) /\ Audible(t)) THEN <<>>
    ELSE IF o.t # "track" THEN <<"not written and read back">>
    ELSE IF ~ObsWF(o) THEN <<"malformed track">>
    ELSE LET u == ObsOf(o) IN
      IF Prop = "C15" THEN
        IF ~OnGrid(t, cfg) THEN <<>>
        ELSE Broken(<< <<"notes", SameBag([i \in 1..Len(u.ents) |-> ExactNote(u.ents[i])], [i \in 1..Len(t.ents) |-> ExactNote(t.ents[i])])>>,
                       <<"velocity is not n/127", Levels(o)>>,
                       <<"time signature", IF t.sig.n = <<>> THEN u.sig.n = <<>> ELSE u.sig = t.sig>>,
                       <<"not equal", c.exact = 0 \/ (IF c.eq.t = "bool" THEN c.eq.b ELSE FALSE)>>,
                       <<"written again it gives other bytes", t.sig.n = <<>> \/ (IF c.again.t = "bool" THEN c.again.b ELSE FALSE)>> >>)
      ELSE Broken(<< <<"number of notes", Len(u.ents) = Len(t.ents)>>,
                     <<"tones", Pitches(u.ents) = Pitches(t.ents)>>,
                     <<"times or velocities", \A p \in Pitches(t.ents) : Near(ByPitch(t.ents, p), ByPitch(u.ents, p), cfg.ppq)>>,
                     <<"overlap in the result", Clean(u)>> >>)
RtNT(c) == LET t == TrackOf(c) cfg == CfgOf(c) IN
           Len(t.ents) > 0 /\ Expressible(t, cfg) /\ GapsFit(t, cfg) /\ Clean(t) /\ Audible(t) /\ (OnGrid(t, cfg) <=> Prop = "C15")

----------------------------------------------------------------------------
(* C20: incomplete files.  c.cuts[k+1] is the outcome of reading the first k bytes. *)
CutFails(c) ==
    LET n == Len(c.b)
        bad == {k \in 0..(n - 1) : c.cuts[k + 1] # "MIDIParsingError"}
        \* the specification refuses them too: states after each byte
        sts == FoldLeft(LAMBDA a, b : [s |-> SmfStep(a.s, b), ok |-> a.ok /\ EndReason(a.s) # ""], [s |-> SmfInit, ok |-> TRUE], c.b)
    IN Broken(<< <<"the first " \o (IF bad = {} THEN "" ELSE ToString(Min(bad))) \o " bytes are read as a track or crash the reader", bad = {}>>,
                 <<"some proper prefix is a complete file", sts.ok>>,
                 <<"the whole file is not read", c.cuts[n + 1] = "track">> >>)
\* an output that raises after accepting some bytes
FaultFails(c) == Broken(<< <<"the output's error did not reach the caller", IsErr(c.obs, c.e)>>,
                           <<"incomplete output read as a track", c.got = c.whole \/ c.after = "MIDIParsingError">>,
                           <<"bytes beyond the fault", c.got <= c.whole>> >>)

\* everything that was in the file while it was being written
SnapsFails(c) == Broken(<< <<"not written", c.obs.t = "ok">>,
                           <<"an intermediate state of the file is read as a track or crashes the reader", \A i \in DOMAIN c.cuts : c.cuts[i] = "MIDIParsingError">>,
                           <<"no intermediate states", c.n > 0>>,
                           <<"the whole file is not read", c.whole = "track">> >>)

----------------------------------------------------------------------------
(* C24: entry points.  Every variant must give what the first one gives. *)
AgreeFails(c) == Broken([i \in 1..Len(c.outs) |-> <<c.outs[i].name, c.outs[i].o = c.outs[1].o /\ c.outs[i].o.t \in {"bytes", "track", "err"}>>])
\* written at the current position of a file that already has contents
PlaceFails(c) ==
    LET n == Len(c.b)
        after == [i \in 1..Max({Len(c.old), c.at + n}) |->
                     IF i > c.at /\ i <= c.at + n THEN c.b[i - c.at]
                     ELSE IF i <= Len(c.old) THEN c.old[i] ELSE 0]
    IN IF c.closed = 1 THEN <<"the object written to was closed">> ELSE
       Broken(<< <<"contents of the file", c.new = after>>, <<"position after writing", c.pos = c.at + n>> >>)
\* written with middle C c.mc, read with c.mc2
ShiftFails(c) ==
    IF c.obs.t # "list" THEN <<"not read">>
    ELSE Broken(<< <<"shift", SameBag([i \in 1..Len(c.obs.l) |-> c.obs.l[i]],
                                      [i \in 1..Len(c.ps) |-> IAdd(c.ps[i], ISub(c.mc2, c.mc))])>> >>)

----------------------------------------------------------------------------
Fails(c) ==
    CASE c.k = "dump" -> DumpFails(c)
      [] c.k = "ctor" -> CtorFails(c)
      [] c.k = "load" -> LoadFails(c)
      [] c.k = "rt" -> RtFails(c)
      [] c.k = "cut" -> CutFails(c)
      [] c.k = "fault" -> FaultFails(c)
      [] c.k = "snaps" -> SnapsFails(c)
      [] c.k = "agree" -> AgreeFails(c)
      [] c.k = "place" -> PlaceFails(c)
      [] c.k = "shift" -> ShiftFails(c)

DumpNT(c) == LET t == TrackOf(c) IN
             IF Prop = "C14" THEN Inexpressible(t, CfgOf(c)) ELSE Len(t.ents) > 0 /\ Expressible(t, CfgOf(c)) /\ GapsFit(t, CfgOf(c))
Nontrivial(c) ==
    CASE c.k = "dump" -> DumpNT(c)
      [] c.k = "load" -> LoadNT(c)
      [] c.k = "rt" -> RtNT(c)
      [] c.k = "ctor" -> c.obs.t = "err"
      [] c.k = "fault" -> c.got < c.whole
      [] OTHER -> TRUE

Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), Nontrivial(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
