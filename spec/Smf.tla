--------------------------------- MODULE Smf ---------------------------------
(***************************************************************************)
(* Standard MIDI files, format 0, as the transition system of their        *)
(* reader: SmfStep(s, b) is the state after one more byte.  The same step  *)
(* function is the Next-relation explored by MC_Smf, the independent       *)
(* parser applied to what the writer produced, and the oracle for what the *)
(* reader must answer for given bytes.                                     *)
(*                                                                         *)
(* A file the format does not define (bytes the standard leaves undefined, *)
(* several track chunks, ...) leaves a mark in s.soft: the specification   *)
(* then demands only a track or a refusal, not which.                      *)
(***************************************************************************)
EXTENDS Dyadic

Cap == 1073741824          \* sizes saturate here; no input is that long

MThd == <<77, 84, 104, 100>>
MTrk == <<77, 84, 114, 107>>

SmfInit == [m |-> "chunk", buf |-> <<>>, left |-> 0, hdr |-> 0, hsize |-> 0, div |-> 0,
            trk |-> 0, other |-> 0, time |-> <<>>, vl |-> <<>>, vn |-> 0, need |-> 0,
            st |-> 0, cur |-> 0, kind |-> 0, pfx |-> -1, lapsed |-> 0, ev |-> <<>>,
            why |-> "", soft |-> {}, maxvl |-> 0]

Reject(s, w) == [s EXCEPT !.m = "rej", !.why = w]

\* the modes inside a track chunk
InTrack(m) == m \in {"delta", "status", "data", "metakind", "metalen", "metabody", "syxlen", "skipev"}

ChunkSize(b) == LET hi == b[5] * 256 + b[6] IN
                IF hi >= 16384 THEN Cap ELSE hi * 65536 + b[7] * 256 + b[8]

ChunkHeader(s) ==
    LET nm == SubSeq(s.buf, 1, 4)
        sz == ChunkSize(s.buf)
        t  == [s EXCEPT !.buf = <<>>, !.left = sz]
    IN IF nm = MThd THEN
            IF sz < 6 THEN Reject(s, "short header")
            ELSE [t EXCEPT !.m = "hdr", !.hsize = sz,
                           !.soft = IF s.hdr > 0 THEN @ \cup {"several headers"} ELSE @]
       ELSE IF nm = MTrk THEN
            IF s.hdr = 0 THEN Reject(s, "track before header")
            ELSE IF sz = 0 THEN Reject(s, "no end of track")
            ELSE [t EXCEPT !.m = "delta", !.time = <<>>, !.vl = <<>>, !.vn = 0, !.st = 0,
                           !.pfx = -1, !.soft = IF s.trk > 0 THEN @ \cup {"several tracks"} ELSE @]
       ELSE [t EXCEPT !.other = @ + 1, !.m = IF sz = 0 THEN "chunk" ELSE "skip"]

Header(s) ==
    LET b == s.buf
        fmt == b[1] * 256 + b[2]
        ntr == b[3] * 256 + b[4]
        dv == b[5] * 256 + b[6]
    IN IF fmt # 0 THEN Reject(s, "format")
       ELSE IF ntr # 1 THEN Reject(s, "track count")
       ELSE IF dv = 0 THEN Reject(s, "zero division")
       ELSE IF dv > 32767 THEN Reject(s, "smpte division")
       ELSE [s EXCEPT !.hdr = @ + 1, !.div = dv, !.buf = <<>>, !.m = IF s.left = 0 THEN "chunk" ELSE "skip"]

\* number of data bytes of channel and system messages; -1: undefined status
DataLen(st) ==
    LET k == st \div 16 IN
    IF k \in {8, 9, 10, 11, 14} THEN 2
    ELSE IF k \in {12, 13} THEN 1
    ELSE IF st \in {241, 243} THEN 1
    ELSE IF st = 242 THEN 2
    ELSE IF st \in {246, 248, 250, 251, 252, 254} THEN 0
    ELSE -1

NextEvent(s) == [s EXCEPT !.m = "delta", !.buf = <<>>, !.vl = <<>>, !.vn = 0, !.need = 0]

\* a complete channel message: s.cur with data s.buf
Message(s) ==
    LET k == s.cur \div 16
        c == s.cur % 16
        t == [NextEvent(s) EXCEPT !.lapsed = 1]
    IN IF k = 8 THEN [t EXCEPT !.ev = Append(@, [k |-> "off", c |-> c, p |-> s.buf[1], v |-> s.buf[2], t |-> s.time])]
       ELSE IF k = 9 THEN [t EXCEPT !.ev = Append(@, [k |-> "on", c |-> c, p |-> s.buf[1], v |-> s.buf[2], t |-> s.time])]
       ELSE t

DataByte(s, b) ==
    LET t == [s EXCEPT !.buf = Append(@, b), !.need = @ - 1,
                       !.soft = IF b >= 128 THEN @ \cup {"8-bit data"} ELSE @]
    IN IF t.need = 0 THEN Message(t) ELSE [t EXCEPT !.m = "data"]

Status(s, b) ==
    IF b = 255 THEN [s EXCEPT !.m = "metakind", !.st = 0]
    ELSE IF b \in {240, 247} THEN [s EXCEPT !.m = "syxlen", !.st = 0, !.vl = <<>>, !.vn = 0]
    ELSE IF b >= 128 THEN
        LET n == DataLen(b) IN
        IF n = -1 THEN Reject(s, "undefined status")
        ELSE IF b >= 240 THEN
            IF n = 0 THEN [NextEvent(s) EXCEPT !.st = 1]
            ELSE [s EXCEPT !.m = "skipev", !.st = 1, !.need = n]
        ELSE [s EXCEPT !.m = "data", !.st = b, !.cur = b, !.need = n, !.buf = <<>>]
    ELSE IF s.st = 0 THEN Reject(s, "data byte without running status")
    \* after a system common or real-time message, which have no place in a file
    ELSE IF s.st = 1 THEN Reject([s EXCEPT !.soft = @ \cup {"running status after a system message"}], "data byte without running status")
    ELSE DataByte([s EXCEPT !.cur = s.st, !.need = DataLen(s.st), !.buf = <<>>], b)

\* a variable-length quantity: a BigNat for times
VlqByte(s, b) == [s EXCEPT !.vl = BAdd(BMulSmall(@, 128), Big(b % 128)), !.vn = @ + 1,
                           !.soft = IF s.vn >= 4 THEN @ \cup {"long quantity"} ELSE @,
                           !.maxvl = IF s.vn + 1 > @ THEN s.vn + 1 ELSE @]
VlqInt(s) == IF IsSmall(s.vl) THEN ToInt(s.vl) ELSE Cap

\* length and kind of a meta event are known
MetaStart(s) ==
    LET n == VlqInt(s) IN
    IF s.kind = 47 THEN
        IF n # 0 THEN Reject(s, "end of track with a body")
        ELSE [s EXCEPT !.m = "eot"]
    ELSE IF s.kind = 32 /\ n # 1 THEN Reject(s, "channel prefix length")
    ELSE IF s.kind = 88 /\ n # 4 THEN Reject(s, "time signature length")
    ELSE IF n = 0 THEN NextEvent(s)
    ELSE [s EXCEPT !.m = "metabody", !.need = n, !.buf = <<>>]

MetaEnd(s) ==
    LET t == NextEvent(s) IN
    IF s.kind = 32 THEN [t EXCEPT !.pfx = s.buf[1], !.lapsed = 0]
    ELSE IF s.kind = 88 THEN
        [t EXCEPT !.ev = Append(@, [k |-> "sig", c |-> s.pfx, nn |-> s.buf[1], dd |-> s.buf[2],
                                    cc |-> s.buf[3], bb |-> s.buf[4], t |-> s.time,
                                    stale |-> IF s.pfx = -1 THEN 0 ELSE s.lapsed])]
    ELSE IF s.kind = 81 /\ Len(s.buf) = 3 THEN
        [t EXCEPT !.ev = Append(@, [k |-> "tempo", us |-> s.buf[1] * 65536 + s.buf[2] * 256 + s.buf[3], t |-> s.time])]
    ELSE t

MetaByte(s, b) ==
    LET t == [s EXCEPT !.buf = IF Len(@) < 4 THEN Append(@, b) ELSE @ , !.need = @ - 1]
    IN IF t.need = 0 THEN MetaEnd(t) ELSE t

TrackByte(s, b) ==
    CASE s.m = "delta" ->
            LET t == VlqByte(s, b) IN
            IF b >= 128 THEN t ELSE [t EXCEPT !.m = "status", !.time = BAdd(@, t.vl)]
      [] s.m = "status" -> Status(s, b)
      [] s.m = "data" -> DataByte(s, b)
      [] s.m = "metakind" -> [s EXCEPT !.m = "metalen", !.kind = b, !.vl = <<>>, !.vn = 0,
                                        !.soft = IF b >= 128 THEN @ \cup {"meta kind"} ELSE @]
      [] s.m = "metalen" -> LET t == VlqByte(s, b) IN IF b >= 128 THEN t ELSE MetaStart(t)
      [] s.m = "metabody" -> MetaByte(s, b)
      [] s.m = "syxlen" ->
            LET t == VlqByte(s, b) IN
            IF b >= 128 THEN t
            ELSE IF VlqInt(t) = 0 THEN NextEvent(t)
            ELSE [t EXCEPT !.m = "skipev", !.need = VlqInt(t)]
      [] s.m = "skipev" -> IF s.need = 1 THEN NextEvent(s) ELSE [s EXCEPT !.need = @ - 1]

\* close the chunk when its last byte has been consumed
AfterTrackByte(t) ==
    IF t.m = "rej" THEN t
    ELSE IF t.m = "eot" THEN
        [t EXCEPT !.trk = @ + 1, !.buf = <<>>,
                  !.soft = IF t.left = 0 THEN @ ELSE @ \cup {"bytes after end of track"},
                  !.m = IF t.left = 0 THEN "chunk" ELSE "skip"]
    ELSE IF t.left = 0 THEN Reject(t, "no end of track")
    ELSE t

SmfStep(s, b) ==
    CASE s.m = "rej" -> s
      [] s.m = "chunk" ->
            LET t == [s EXCEPT !.buf = Append(@, b)]
            IN IF Len(t.buf) = 8 THEN ChunkHeader(t) ELSE t
      [] s.m = "skip" ->
            [s EXCEPT !.left = @ - 1, !.m = IF s.left = 1 THEN "chunk" ELSE "skip"]
      [] s.m = "hdr" ->
            LET t == [s EXCEPT !.buf = Append(@, b), !.left = @ - 1]
            IN IF Len(t.buf) = 6 THEN Header(t) ELSE t
      [] OTHER -> AfterTrackByte(TrackByte([s EXCEPT !.left = @ - 1], b))

\* what the end of input makes of state s
Complete(s) == s.m = "chunk" /\ s.buf = <<>> /\ s.hdr > 0 /\ s.trk > 0
EndReason(s) == IF s.m = "rej" THEN s.why
                ELSE IF ~(s.m = "chunk" /\ s.buf = <<>>) THEN "truncated"
                ELSE IF s.hdr = 0 THEN "no header" ELSE IF s.trk = 0 THEN "no track" ELSE ""
\* the input ends inside a chunk, which therefore is shorter than it says
CutShort(s) == s.m \notin {"chunk", "rej"}
\* the specification leaves the verdict open
Open(s) == s.soft # {} /\ ~CutShort(s)

Run(bytes) == FoldLeft(SmfStep, SmfInit, bytes)

----------------------------------------------------------------------------
(* What the events of a track denote. *)

IsOff(e) == e.k = "off" \/ (e.k = "on" /\ e.v = 0)
IsOn(e) == e.k = "on" /\ e.v > 0
NoteEvents(ev) == SelectSeq(ev, LAMBDA e : e.k \in {"on", "off"})

\* sounding: sequence of pending note-ons; out: completed notes in ticks
PairStep(a, e) ==
    LET same == {i \in DOMAIN a.run : a.run[i].c = e.c /\ a.run[i].p = e.p} IN
    IF IsOn(e) THEN IF same # {} THEN a ELSE [a EXCEPT !.run = Append(@, e)]
    ELSE IF same = {} THEN a
    ELSE LET i == Min(same) IN
         [run |-> SubSeq(a.run, 1, i - 1) \o SubSeq(a.run, i + 1, Len(a.run)),
          out |-> Append(a.out, [c |-> e.c, p |-> e.p, v |-> a.run[i].v,
                                 on |-> a.run[i].t, len |-> BSub(e.t, a.run[i].t)])]
Pair(ev) == FoldLeft(PairStep, [run |-> <<>>, out |-> <<>>], NoteEvents(ev)).out

\* ticks to whole notes, rounded down to 1/16384
TicksToTime(t, div) == CMk(BDivSmall(BMulSmall(t, 4096), div)[1], 14)

\* a note as the reader reports it: tone, times, velocity level
Denote(x, div, middle) ==
    [at |-> TicksToTime(x.on, div), p |-> IAdd(IntOf(x.p - 60), middle),
     d |-> TicksToTime(x.len, div), lv |-> x.v]

Channels(ev) == {e.c : e \in ToSet(NoteEvents(ev))}

\* time signature for a channel (-1: whole file) as <<nn, dd>>
LastSig(ev, c) == LET S == {i \in DOMAIN ev : ev[i].k = "sig" /\ ev[i].c = c} IN
                  IF S = {} THEN <<>> ELSE <<ev[Max(S)].nn, ev[Max(S)].dd>>
ChannelSig(ev, c) == LET a == LastSig(ev, c) b == LastSig(ev, -1) IN
                     IF a # <<>> THEN a ELSE IF b # <<>> THEN b ELSE <<4, 2>>
SigFrac(x) == [n |-> Big(x[1]), d |-> BPow2(x[2])]

\* a channel prefix followed by a channel message before the signature it is
\* for: the standard says the prefix has lapsed, so which signature applies is open
\* between the two readings: the prefix still holds, or the signature is the whole file's
PrefixStale(ev) == \E i \in DOMAIN ev : ev[i].k = "sig" /\ ev[i].stale = 1
Lapse(ev) == [i \in 1..Len(ev) |-> IF ev[i].k = "sig" /\ ev[i].stale = 1 THEN [ev[i] EXCEPT !.c = -1] ELSE ev[i]]
=============================================================================
