---------------------------- MODULE MC_RoundTrip ----------------------------
(***************************************************************************)
(* Writing a track byte by byte while a reader looks on.  For every clean  *)
(* track of a small box: first the note events are put in some order the   *)
(* guarantees of C13 allow (all orders are explored), then the bytes go    *)
(* out one at a time; the writer may die after any of them.  Checked: what *)
(* is out before the last byte is never a complete file (C20); the whole   *)
(* file is well-formed (C12), says what the track says (C13), and reads    *)
(* back as the track, exactly (C15) or within the bound (C16), shifted by  *)
(* the difference of the middle Cs (C24).                                  *)
(***************************************************************************)
EXTENDS Writer, TLC, IOUtils

MaxNotes == CHOOSE d \in 0..9 : ToString(d) = IOEnv.DEPTH
\* positions and durations in units of 1/32; ticks are 1/4, 1/8 or 1/12 of a whole note... (4*ppq per whole)
Ppqs == {1, 2, 3}
Ats == {0, 4, 7, 8, 16}
Durs == {0, 3, 4, 8}
NoteSpace == {<<at, d, p>> : at \in Ats, d \in Durs, p \in {0, 1}}
Ent(x) == [at |-> Canon(Frac(x[1], 32)), p |-> IntOf(x[3]), d |-> Canon(Frac(x[2], 32)), v |-> IF x[3] = 0 THEN CUnit ELSE [n |-> One, e |-> 1]]
\* multisets of up to MaxNotes notes, as non-decreasing sequences
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
Lists_ == UNION {{s \in [1..k -> NoteSpace] : \A i \in 1..(k - 1) : Lt(s[i], s[i + 1])} : k \in 0..MaxNotes}
TrackOfList(s) == [sig |-> Frac(3, 4), ents |-> [i \in 1..Len(s) |-> Ent(s[i])]]
Cfg(ppq) == [ppq |-> ppq, ch |-> 5, mc |-> IntOf(0), bpm |-> Frac(120, 1)]
CleanLists == {s \in Lists_ : Clean(TrackOfList(s))}

VARIABLES notes, ppq, phase, todo, queue, out, rd
vars == <<notes, ppq, phase, todo, queue, out, rd>>

T == TrackOfList(notes)
C == Cfg(ppq)
\* a note event: <<index of the note, 0 on / 1 off>>
TickOf(x) == IF x[2] = 0 THEN OnTick(T.ents[x[1]], C) ELSE OffTick(T.ents[x[1]], C)

Init == /\ notes \in CleanLists /\ ppq \in Ppqs
        /\ phase = "schedule" /\ todo = {<<i, k>> : i \in DOMAIN notes, k \in {0, 1}}
        /\ queue = <<>> /\ out = <<>> /\ rd = SmfInit

\* x may be written now: nothing earlier is waiting, a note starts before it ends, and where a sounding
\* note ends on the tick on which another of its pitch starts, the end comes first; likewise notes of no
\* (remaining) length keep their place before what follows them
Started(i) == <<i, 0>> \notin todo
Before(i, j) == LET a == T.ents[i] b == T.ents[j] IN CLe(EntryEnd(a), b.at) /\ (CLt(a.at, b.at) \/ (a.at = b.at /\ a.d = CZero /\ (b.d # CZero \/ i < j)))
Ready(x) == /\ \A y \in todo : BLe(TickOf(x), TickOf(y))
            /\ x[2] = 1 => Started(x[1])
            /\ x[2] = 0 => \A y \in todo : ~(y[2] = 1 /\ y[1] # x[1] /\ T.ents[y[1]].p = T.ents[x[1]].p /\ Before(y[1], x[1]))
Schedule == /\ phase = "schedule" /\ todo # {}
            /\ \E x \in todo : Ready(x) /\ todo' = todo \ {x} /\ queue' = Append(queue, x)
            /\ UNCHANGED <<notes, ppq, phase, out, rd>>

EventBytes(q, i) ==
    LET x == q[i] e == T.ents[x[1]]
        prev == IF i = 1 THEN <<>> ELSE TickOf(q[i - 1])
        p == IToInt(MidiPitch(e.p, C.mc))
    IN Vlq(ToInt(BSub(TickOf(x), prev))) \o (IF x[2] = 0 THEN <<144 + C.ch, p, Level(e.v)>> ELSE <<128 + C.ch, p, 64>>)
Body(q) == SigBytes(3, 2) \o TempoBytes(500000) \o FoldLeft(LAMBDA a, i : a \o EventBytes(q, i), <<>>, Indices(Len(q))) \o EotBytes
Format == /\ phase = "schedule" /\ todo = {}
          /\ phase' = "write" /\ out' = HeaderBytes(ppq) \o TrackChunk(Body(queue))
          /\ UNCHANGED <<notes, ppq, todo, queue, rd>>
\* one more byte reaches the output
Write == /\ phase = "write" /\ out # <<>>
         /\ rd' = SmfStep(rd, Head(out)) /\ out' = Tail(out)
         /\ phase' = IF Len(out) = 1 THEN "closed" ELSE "write"
         /\ UNCHANGED <<notes, ppq, todo, queue>>
Crash == /\ phase = "write" /\ phase' = "dead" /\ out' = <<>>
         /\ UNCHANGED <<notes, ppq, todo, queue, rd>>
Next == Schedule \/ Format \/ Write \/ Crash
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
NoStuck == (phase = "schedule" /\ todo # {}) => \E x \in todo : Ready(x)
NeverReadEarly == phase \in {"write", "dead"} => EndReason(rd) # ""
AllTrue(pairs) == \A i \in DOMAIN pairs : pairs[i][2]
FileOk == phase = "closed" => AllTrue(WellFormedFile(rd, C)) /\ Balanced(rd.ev) /\ AllTrue(Faithful(rd, T, C))
Back(mc) == LET ps == Pair(rd.ev) IN [i \in 1..Len(ps) |-> Denote(ps[i], rd.div, mc)]
Orig(e, sh) == [at |-> e.at, p |-> IAdd(e.p, IntOf(sh)), d |-> e.d, lv |-> Level(e.v)]
ExactBack == (phase = "closed" /\ OnGrid(T, C)) =>
    /\ SameBag(Back(C.mc), [i \in 1..Len(T.ents) |-> Orig(T.ents[i], 0)])
    /\ SameBag(Back(IAdd(C.mc, IntOf(7))), [i \in 1..Len(T.ents) |-> Orig(T.ents[i], 7)])
\* the bound of C16 on some matching: times never grow and shrink by less than a tick and 1/16384
Tol(x, y) == /\ CLe(y, x)
             /\ LET m == IF x.e > y.e THEN x.e ELSE y.e
                    diff == BSub(BShl(x.n, m - x.e), BShl(y.n, m - y.e))
                IN BLt(BShl(BMulSmall(diff, ppq), 14), BShl(Big(4096 + ppq), m))
NearBack == phase = "closed" =>
    LET b == Back(C.mc) IN
    /\ Len(b) = Len(T.ents)
    /\ \A i \in DOMAIN T.ents : \E j \in DOMAIN b : b[j].p = T.ents[i].p /\ b[j].lv = Level(T.ents[i].v) /\ Tol(T.ents[i].at, b[j].at) /\ Tol(T.ents[i].d, b[j].d)
    /\ \A i, j \in DOMAIN b : (i # j /\ b[i].p = b[j].p) => (CLe(CAdd(b[i].at, b[i].d), b[j].at) \/ CLe(CAdd(b[j].at, b[j].d), b[i].at))
Inv == NoStuck /\ NeverReadEarly /\ FileOk /\ ExactBack /\ NearBack
Emit == (phase = "schedule" /\ queue = <<>>) => PrintT("CASE|" \o ToString(ppq) \o "|" \o ToString(notes))
=============================================================================
