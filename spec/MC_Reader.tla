------------------------------ MODULE MC_Reader ------------------------------
(***************************************************************************)
(* The reader as the code has it - a cursor over chunk bodies, one step    *)
(* per event - against the byte automaton of Smf, for every file of a      *)
(* family given by MODE:                                                   *)
(*   bytes     every track body of up to DEPTH bytes over a small alphabet,*)
(*             with and without an end of track after it                   *)
(*   chunks    every sequence of up to DEPTH chunks, whole or cut          *)
(*   events    every sequence of up to DEPTH note and skipped events, with *)
(*             and without running status                                  *)
(*   channels  the same over notes of two channels, prefixes, signatures   *)
(* It must end for every one of them, refuse what the automaton refuses    *)
(* and deliver the same events.  The files are printed and replayed.       *)
(***************************************************************************)
EXTENDS Writer, TLC, IOUtils

Mode == IOEnv.MODE
Depth == CHOOSE d \in 0..9 : ToString(d) = IOEnv.DEPTH

H(div) == HeaderBytes(div)
TrackFile(body) == H(96) \o TrackChunk(body)
Seqs(n, S) == UNION {[1..k -> S] : k \in 0..n}
Concat(ts) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ts)

ByteAlphabet == {0, 1, 47, 60, 128, 144, 192, 240, 244, 255, 32, 88}
ByteFiles == {TrackFile(b) : b \in Seqs(Depth, ByteAlphabet)} \cup {TrackFile(b \o EotBytes) : b \in Seqs(Depth, ByteAlphabet)}

GoodTrack == TrackChunk(<<0, 144, 60, 64, 96, 128, 60, 64>> \o EotBytes)
ChunkTokens == {H(96), H(0), H(32768), H(32767),
                MThd \o Be32(6) \o <<0, 1, 0, 1, 0, 96>>, MThd \o Be32(6) \o <<0, 0, 0, 2, 0, 96>>, MThd \o Be32(6) \o <<0, 0, 0, 0, 0, 96>>,
                MThd \o Be32(5) \o <<0, 0, 0, 1, 0>>, MThd \o Be32(8) \o <<0, 0, 0, 1, 0, 96, 1, 2>>,
                GoodTrack, SubSeq(GoodTrack, 1, Len(GoodTrack) - 1), TrackChunk(<<0, 144, 60, 64>>), TrackChunk(EotBytes), TrackChunk(<<>>),
                <<65, 66, 67, 68, 0, 0, 0, 0>>, <<65, 66, 67, 68, 0, 0, 0, 2, 77, 84>>, <<65, 66, 67, 68, 1, 0, 0, 0, 1>>, MThd, <<77>>}
ChunkFiles == {Concat(ts) : ts \in Seqs(Depth, ChunkTokens)}

EventTokens == {<<0, 144, 60, 64>>, <<1, 144, 60, 100>>, <<96, 128, 60, 0>>, <<2, 144, 60, 0>>, <<0, 145, 60, 1>>, <<3, 129, 60, 9>>,
                <<1, 60, 0>>, <<0, 61, 127>>, <<48, 61, 0>>,                    \* running status
                <<129, 0, 192, 60>>, <<1, 5>>, <<2, 176, 60, 64>>, <<1, 255, 1, 2, 144, 60>>, <<1, 240, 2, 60, 247>>, <<0, 247, 1, 60>>, <<5, 248>>}
EventFiles == {TrackFile(Concat(ts) \o EotBytes) : ts \in Seqs(Depth, EventTokens)}

ChannelTokens == {<<0, 144, 60, 64>>, <<1, 128, 60, 64>>, <<0, 145, 60, 1>>, <<1, 129, 60, 64>>, <<0, 255, 32, 1, 0>>, <<0, 255, 32, 1, 1>>,
                  <<0, 255, 88, 4, 3, 2, 24, 8>>, <<0, 255, 88, 4, 6, 3, 24, 8>>, <<1, 255, 88, 4, 5, 0, 24, 8>>, <<0, 255, 88, 4, 0, 2, 24, 8>>}
ChannelFiles == {TrackFile(Concat(ts) \o EotBytes) : ts \in Seqs(Depth, ChannelTokens)}

Files == CASE Mode = "bytes" -> ByteFiles
           [] Mode = "chunks" -> ChunkFiles
           [] Mode = "events" -> EventFiles
           [] Mode = "channels" -> ChannelFiles

VARIABLES file, r
vars == <<file, r>>

R0 == [pc |-> "chunk", i |-> 0, body |-> <<>>, j |-> 0, prev |-> 0, status |-> 0, run |-> 0, div |-> 0, seen |-> 0, time |-> 0, pfx |-> -1, ev |-> <<>>, out |-> <<>>]
Init == file \in Files /\ r = R0

Err == r' = [r EXCEPT !.pc = "err"]
Have(n) == r.j + n <= Len(r.body)
Byte(k) == r.body[r.j + k]

\* a variable-length quantity at offset j: <<ok, value, bytes>>; values stay small here
RECURSIVE VarLen(_, _, _, _)
VarLen(b, j, v, n) == IF j + 1 > Len(b) THEN <<FALSE, 0, 0>>
                      ELSE LET x == b[j + 1] w == v * 128 + (x % 128) IN
                           IF x < 128 THEN <<TRUE, w, n + 1>> ELSE IF n >= 3 THEN <<FALSE, 0, 0>> ELSE VarLen(b, j + 1, w, n + 1)

ReadChunk ==
    /\ r.pc = "chunk"
    /\ IF r.i = Len(file) THEN r' = [r EXCEPT !.pc = IF r.div = 0 \/ r.seen = 0 THEN "err" ELSE "done"]
       ELSE IF Len(file) - r.i < 8 THEN Err
       ELSE LET hd == SubSeq(file, r.i + 1, r.i + 8)
                nm == SubSeq(hd, 1, 4)
                sz == ChunkSize(hd)
            IN IF Len(file) - r.i - 8 < sz THEN Err
               ELSE LET t == [r EXCEPT !.i = @ + 8 + sz, !.body = SubSeq(file, r.i + 9, r.i + 8 + sz), !.j = 0]
                    IN r' = IF nm = MThd THEN [t EXCEPT !.pc = "header"]
                            ELSE IF nm = MTrk THEN [t EXCEPT !.pc = IF r.div = 0 THEN "err" ELSE "delta", !.prev = 0, !.time = 0, !.pfx = -1, !.ev = <<>>]
                            ELSE t
ParseHeader ==
    /\ r.pc = "header"
    /\ IF ~Have(6) THEN Err
       ELSE LET dv == Byte(5) * 256 + Byte(6) IN
            IF Byte(1) # 0 \/ Byte(2) # 0 \/ Byte(3) # 0 \/ Byte(4) # 1 \/ dv = 0 \/ dv > 32767 THEN Err
            ELSE r' = [r EXCEPT !.div = dv, !.pc = "chunk"]
ReadDelta ==
    /\ r.pc = "delta"
    /\ LET x == VarLen(r.body, r.j, 0, 0) IN
       IF ~x[1] THEN Err ELSE r' = [r EXCEPT !.time = @ + x[2], !.j = @ + x[3], !.pc = "status"]
ReadStatus ==
    /\ r.pc = "status"
    /\ IF ~Have(1) THEN Err
       ELSE IF Byte(1) >= 128 THEN r' = [r EXCEPT !.j = @ + 1, !.status = Byte(1), !.prev = Byte(1), !.run = 0, !.pc = "event"]
       ELSE IF r.prev = 0 \/ r.prev >= 240 THEN Err
       ELSE r' = [r EXCEPT !.status = r.prev, !.run = 1, !.pc = "event"]
Skip(n) == IF ~Have(n) THEN Err ELSE r' = [r EXCEPT !.j = @ + n, !.pc = "delta"]
ReadEvent ==
    /\ r.pc = "event"
    /\ LET st == r.status k == st \div 16 c == st % 16 IN
       IF st = 255 THEN
            IF ~Have(1) THEN Err
            ELSE LET kind == Byte(1) x == VarLen(r.body, r.j + 1, 0, 0) n == 1 + x[3] IN
                 IF ~x[1] THEN Err
                 ELSE IF kind = 47 THEN IF x[2] # 0 THEN Err ELSE r' = [r EXCEPT !.pc = "chunk", !.seen = 1, !.out = r.ev]
                 ELSE IF kind = 32 THEN IF x[2] # 1 \/ ~Have(n + 1) THEN Err ELSE r' = [r EXCEPT !.j = @ + n + 1, !.pfx = Byte(n + 1), !.pc = "delta"]
                 ELSE IF kind = 88 THEN IF x[2] # 4 \/ ~Have(n + 4) THEN Err
                      ELSE r' = [r EXCEPT !.j = @ + n + 4, !.pc = "delta",
                                          !.ev = Append(@, [k |-> "sig", c |-> r.pfx, nn |-> Byte(n + 1), dd |-> Byte(n + 2), t |-> Big(r.time)])]
                 ELSE Skip(n + x[2])
       ELSE IF k \in {8, 9} THEN
            IF ~Have(2) THEN Err
            ELSE r' = [r EXCEPT !.j = @ + 2, !.pc = "delta",
                                !.ev = Append(@, [k |-> IF k = 8 \/ Byte(2) = 0 THEN "off" ELSE "on", c |-> c, p |-> Byte(1), v |-> Byte(2), t |-> Big(r.time)])]
       ELSE IF st \in {240, 247} THEN LET x == VarLen(r.body, r.j, 0, 0) IN IF ~x[1] THEN Err ELSE Skip(x[3] + x[2])
       ELSE IF DataLen(st) = -1 THEN Err ELSE Skip(DataLen(st))

Step == ReadChunk \/ ParseHeader \/ ReadDelta \/ ReadStatus \/ ReadEvent
Next == Step /\ UNCHANGED file
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == r.pc \in {"done", "err"}
Terminates == <>Ended
\* why it terminates: every step consumes input or moves forward within an event
\* (an event under running status has data; one with a status byte of its own has consumed that byte)
Rank == 4 * ((Len(file) - r.i) + (IF r.pc \in {"delta", "status", "event", "header"} THEN Len(r.body) - r.j + 1 ELSE 0))
        + (CASE r.pc = "event" -> (IF r.run = 1 THEN 1 ELSE 5) [] r.pc = "status" -> 2 [] r.pc = "delta" -> 3 [] r.pc = "header" -> 1 [] r.pc = "chunk" -> 1 [] OTHER -> 0)
Progress == [][Rank' < Rank]_vars

AsSeen(e) == IF e.k = "sig" THEN [k |-> "sig", c |-> e.c, nn |-> e.nn, dd |-> e.dd, t |-> e.t]
             ELSE [k |-> IF IsOff(e) THEN "off" ELSE "on", c |-> e.c, p |-> e.p, v |-> e.v, t |-> e.t]
Expected(s) == LET es == SelectSeq(s.ev, LAMBDA e : e.k # "tempo") IN [i \in 1..Len(es) |-> AsSeen(es[i])]
Refines == Ended => LET s == Run(file) IN
    Open(s) \/ (/\ (r.pc = "done") <=> Complete(s)
                /\ r.pc = "done" => r.out = Expected(s) /\ r.div = s.div)
\* laws of the denotation
PairLaws == Ended => LET s == Run(file) ps == Pair(s.ev) IN Open(s) \/     \* (several tracks start time over)
    /\ Len(ps) <= Len(SelectSeq(s.ev, IsOn))
    /\ \A i \in DOMAIN ps : BLe(BAdd(ps[i].on, ps[i].len), s.time)
    \* channels do not interfere: pairing a channel's events alone gives that channel's notes
    /\ \A c \in Channels(s.ev) : SelectSeq(ps, LAMBDA x : x.c = c) = Pair(SelectSeq(s.ev, LAMBDA e : e.k \in {"on", "off"} /\ e.c = c))
    \* notes of one pitch and channel do not overlap
    /\ \A i, j \in DOMAIN ps : (i < j /\ ps[i].c = ps[j].c /\ ps[i].p = ps[j].p) => BLe(BAdd(ps[i].on, ps[i].len), ps[j].on)
Emit == (r = R0) => PrintT("CASE|" \o ToString(file))
=============================================================================
