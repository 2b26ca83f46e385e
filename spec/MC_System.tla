------------------------------ MODULE MC_System ------------------------------
(***************************************************************************)
(* Programs over the whole library.  Each step picks an operation, with    *)
(* operands from the store, and performs it as System allows (resolving    *)
(* what the guarantees leave open in one way).  MODE=all explores all       *)
(* programs of DEPTH steps over few literals from a given store; MODE=some  *)
(* walks at random (TLC -simulate) and prints the programs for replay.     *)
(***************************************************************************)
EXTENDS System, IOUtils, Json, TLC

Some == IOEnv.MODE = "some"
Depth == atoi(IOEnv.DEPTH)

VARIABLES store, hist, last
vars == <<store, hist, last>>

I(n) == IntOf(n)
F(n, d) == [n |-> Big(n), d |-> Big(d)]
Ids(S, t) == {i \in DOMAIN S : S[i].t = t}

\* literals
Pitch1 == IF Some THEN {I(0), I(57), I(60), I(59), I(-1), I(-13), I(103)} ELSE {I(60)}
Steps == IF Some THEN {I(0), I(1), I(7), I(-12), I(5)} ELSE {I(7)}
Txts == IF Some THEN {<<65, 52>>, <<67>>, <<68, 98, 51>>, <<70, 35, 45, 49>>, <<72, 52>>, <<67, 52, 32>>} ELSE {<<68, 98, 51>>}
Pairs == IF Some THEN {<<0, 1>>, <<0, 8>>, <<1, 4>>, <<2, 8>>, <<3, 16>>, <<1, 1>>, <<5, 2>>, <<7, 64>>} ELSE {<<2, 8>>}
BadPairs == IF Some THEN {<<1, 3>>, <<-1, 4>>, <<1, 0>>} ELSE {<<1, 3>>}
Vels == IF Some THEN {F(0, 1), F(1, 1), F(1, 2), F(3, 4), F(1, 128), F(127, 128)} ELSE {F(1, 2)}
BadVels == {F(3, 2)}
ChordNames == IF Some THEN Names ELSE {"min7"}
Setts == IF Some THEN {[ppq |-> 96, ch |-> 0, mc |-> I(36), bpm |-> F(120, 1)], [ppq |-> 4, ch |-> 3, mc |-> I(36), bpm |-> F(120, 1)],
                       [ppq |-> 1000, ch |-> 15, mc |-> I(48), bpm |-> F(90, 1)], [ppq |-> 24, ch |-> 0, mc |-> I(-60), bpm |-> F(60, 1)]}
         ELSE {[ppq |-> 4, ch |-> 3, mc |-> I(36), bpm |-> F(120, 1)]}

None == [t |-> "none"]
ToneArgs(S) == {[t |-> "ref", id |-> i] : i \in Ids(S, "tone")} \cup {[t |-> "int", i |-> p] : p \in Pitch1} \cup {[t |-> "text", c |-> x] : x \in Txts}
DurArgs(S) == {[t |-> "ref", id |-> i] : i \in Ids(S, "sig")} \cup {[t |-> "pair", n |-> Big(x[1]), d |-> Big(x[2])] : x \in Pairs} \cup {None}
VelArgs == {[t |-> "num", n |-> v.n, d |-> v.d] : v \in Vels \cup BadVels} \cup {None}
BaseArgs(S) == ToneArgs(S) \cup {[t |-> "ref", id |-> i] : i \in Ids(S, "note")}
Tones(S) == Ids(S, "tone") Sgs(S) == Ids(S, "sig") Nts(S) == Ids(S, "note") Trs(S) == Ids(S, "track") Fls(S) == Ids(S, "file")
\* one random argument when walking, all of them otherwise
Pick(X) == IF Some /\ X # {} THEN {RandomElement(X)} ELSE X

Kinds == <<"tone", "parse", "transpose", "spell", "octave", "freq", "tonecmp", "sig", "sum", "prod", "abs", "norm", "to", "sigcmp",
           "note", "note", "toneof", "durof", "velof", "ntrans", "ndur", "nvel", "notecmp", "chord", "chord", "track", "track", "trackof", "add", "add", "add", "add", "add", "copyin", "badadd",
           "iter", "iter", "peek", "pick", "count", "length", "tsig", "teq", "teq", "text", "repr", "rand", "write", "write", "read", "read", "drop">> \o IF IOEnv.COPIES = "1" THEN <<"copy", "copy", "copy", "copy">> ELSE <<>>
OpsOf(k, S) ==
    CASE k = "tone" -> {[op |-> k, p |-> p] : p \in Pick(Pitch1)}
      [] k = "parse" -> {[op |-> k, c |-> x] : x \in Pick(Txts)}
      [] k \in {"transpose"} -> {[op |-> k, a |-> i, k |-> s] : i \in Pick(Tones(S)), s \in Pick(Steps)}
      [] k = "spell" -> {[op |-> k, a |-> i, down |-> b] : i \in Pick(Tones(S)), b \in Pick({0, 1})}
      [] k = "octave" -> {[op |-> k, a |-> i] : i \in Pick(Tones(S))}
      [] k = "freq" -> {[op |-> k, a |-> i, base |-> F(440, 1)] : i \in Pick(Tones(S))}
      [] k = "tonecmp" -> {[op |-> k, a |-> i, b |-> j] : i \in Pick(Tones(S)), j \in Pick(Tones(S))}
      [] k = "sig" -> {[op |-> k, n |-> I(x[1]), d |-> I(x[2])] : x \in Pick(Pairs \cup BadPairs)}
      [] k \in {"sum", "prod", "sigcmp"} -> {[op |-> k, a |-> i, b |-> j] : i \in Pick(Sgs(S)), j \in Pick(Sgs(S))}
      [] k \in {"abs", "norm"} -> {[op |-> k, a |-> i] : i \in Pick(Sgs(S))}
      [] k = "to" -> {[op |-> k, a |-> i, d |-> I(d)] : i \in Pick(Sgs(S)), d \in Pick({1, 4, 64, 128, 3})}
      [] k = "note" -> {[op |-> k, tone |-> x, dur |-> y, vel |-> v] : x \in Pick(ToneArgs(S)), y \in Pick(DurArgs(S)), v \in Pick(VelArgs)}
      [] k \in {"toneof", "durof", "velof"} -> {[op |-> k, a |-> i] : i \in Pick(Nts(S))}
      [] k = "ntrans" -> {[op |-> k, a |-> i, k |-> s] : i \in Pick(Nts(S)), s \in Pick(Steps)}
      [] k = "ndur" -> {[op |-> k, a |-> i, dur |-> y] : i \in Pick(Nts(S)), y \in Pick(DurArgs(S) \ {None})}
      [] k = "nvel" -> {[op |-> k, a |-> i, vel |-> v] : i \in Pick(Nts(S)), v \in Pick(VelArgs \ {None})}
      [] k = "notecmp" -> {[op |-> k, a |-> i, b |-> j] : i \in Pick(Nts(S)), j \in Pick(Nts(S))}
      [] k = "chord" -> {[op |-> k, name |-> n, base |-> x, dur |-> y, vel |-> v] : n \in Pick(ChordNames), x \in Pick(BaseArgs(S)), y \in Pick(DurArgs(S)), v \in Pick(VelArgs \ {[t |-> "num", n |-> w.n, d |-> w.d] : w \in BadVels})}
      [] k = "track" -> {[op |-> k, sig |-> y] : y \in Pick(DurArgs(S))}
      [] k = "trackof" -> {[op |-> k, sig |-> y, content |-> ns] : y \in Pick(DurArgs(S)),
                             ns \in IF Nts(S) = {} THEN {} ELSE IF Some THEN {[j \in 1..RandomElement({0, 1, 2, 3}) |-> [note |-> RandomElement(Nts(S)), where |-> RandomElement(DurArgs(S))]]} ELSE {<<[note |-> n, where |-> w]>> : n \in Nts(S), w \in DurArgs(S)}}
      [] k = "add" -> {[op |-> k, a |-> i, notes |-> ns, where |-> y] : i \in Pick({t \in Trs(S) : Len(S[t].ents) < 8}),
                         ns \in IF Nts(S) = {} THEN {} ELSE IF Some THEN {[j \in 1..RandomElement({1, 1, 1, 2, 3}) |-> RandomElement(Nts(S))]} ELSE {<<n>> : n \in Nts(S)} \cup {<<>>}, y \in Pick(DurArgs(S))}
      [] k = "copyin" -> {[op |-> k, a |-> i, b |-> j, where |-> y] : i \in Pick({t \in Trs(S) : Len(S[t].ents) < 8}), j \in Pick({t \in Trs(S) : Len(S[t].ents) < 5}), y \in Pick(DurArgs(S))}
      [] k \in {"badadd", "iter", "peek", "count", "length", "tsig"} -> {[op |-> k, a |-> i] : i \in Pick(Trs(S))}
      [] k = "pick" -> {[op |-> k, a |-> i, k |-> j] : i \in Pick({t \in Trs(S) : S[t].ents # <<>>}), j \in Pick(0..3)}
      [] k = "teq" -> {[op |-> k, a |-> i, b |-> j] : i \in Pick(Trs(S)), j \in Pick(Trs(S))}
      [] k \in {"text", "repr"} -> {[op |-> k, a |-> i] : i \in Pick(Tones(S) \cup Sgs(S) \cup Nts(S) \cup Trs(S))}
      [] k = "copy" -> {[op |-> k, a |-> i, how |-> h] : i \in Pick(Tones(S) \cup Sgs(S) \cup Nts(S) \cup Trs(S)), h \in Pick({"copy", "deepcopy", "pickle"})}
      [] k = "rand" -> {[op |-> k, a |-> i, lo |-> F(1, 4), hi |-> F(3, 4), mean |-> m, var |-> F(0, 1)] : i \in Pick(Trs(S)), m \in Pick({F(1, 2), F(0, 1), F(1, 1)})}
      [] k = "write" -> {[op |-> k, a |-> i, cfg |-> c] : i \in Pick(Trs(S)), c \in Pick(Setts)}
      [] k = "read" -> {[op |-> k, a |-> i, mc |-> m, chan |-> c] : i \in Pick(Fls(S)), m \in Pick({I(36), I(48)}), c \in Pick({-1, -1, 0, 3})}
      [] k = "drop" -> IF Len(S) < 12 THEN {} ELSE {[op |-> k, a |-> i] : i \in Pick({j \in DOMAIN S : S[j].t # "gone"})}

----------------------------------------------------------------------------
(* One outcome that System allows. *)
Err(e) == [t |-> "err", e |-> e]
SigObs(s) == [t |-> "sig", n |-> s.n, d |-> s.d]
CSig(x) == SigObs([n |-> x.n, d |-> BPow2(x.e)])
ToneObs(p) == [t |-> "tone", p |-> p]
NoteObs(p, d, v) == [t |-> "note", p |-> p, d |-> d, v |-> v]
Unc(x) == [n |-> x.n, d |-> BPow2(x.e)]
EntObs(e) == [at |-> Unc(e.at), p |-> e.p, d |-> Unc(e.d), v |-> Unc(e.v)]
EntsObs(es) == LET s == SortSeq(es, NoteOrder) IN [i \in 1..Len(s) |-> EntObs(s[i])]
TrackObs(sig, es) == [t |-> "track", sig |-> sig, l |-> EntsObs(es)]
BoolObs(b) == [t |-> "bool", b |-> b]
CmpObs(k) == [eq |-> BoolObs(k = 0), ne |-> BoolObs(k # 0), lt |-> BoolObs(k < 0), le |-> BoolObs(k <= 0), gt |-> BoolObs(k > 0), ge |-> BoolObs(k >= 0)]
TxtObs(x) == [t |-> "text", c |-> x]
\* velocities read are n/127: as a fraction that is on the level
LevelVel(lv) == [n |-> BAdd(BDivSmall(BShl(Big(lv), 52), 127)[1], IF lv = 0 \/ lv = 127 THEN <<>> ELSE One), d |-> BPow2(52)]
ReadTrack(b, mc, chan) ==
    LET s == Run(b)
        ns == MustBe(s.ev, s.div, mc, chan)
        C == Channels(s.ev)
        x == IF chan # -1 THEN ChannelSig(s.ev, chan) ELSE IF C = {} THEN ChannelSig(s.ev, 0) ELSE CHOOSE y \in GreatestSigs(s.ev, C) : TRUE
    IN [sig |-> SigFrac(x), ents |-> [i \in 1..Len(ns) |-> [at |-> ns[i].at, p |-> ns[i].p, d |-> ns[i].d, v |-> Canon(LevelVel(ns[i].lv))]]]
Result(S, c) ==
    LET A == IF c.op \in {"tone", "parse", "sig", "note", "chord", "track", "trackof"} THEN None ELSE S[c.a] IN
    CASE c.op = "tone" -> ToneObs(c.p)
      [] c.op = "parse" -> LET a == Parse(c.c) IN IF NotationAccepts(a) THEN ToneObs(NotationPitch(a)) ELSE Err("ValueError")
      [] c.op = "transpose" -> ToneObs(IAdd(A.p, c.k))
      [] c.op = "spell" -> TxtObs(Spell(A.p, c.down = 1))
      [] c.op = "octave" -> [t |-> "int", i |-> Octave(A.p)]
      [] c.op = "freq" -> [t |-> "skip"]
      [] c.op = "tonecmp" -> CmpObs(ICmp(A.p, S[c.b].p))
      [] c.op = "sig" -> IF SigGood(c.n, c.d) THEN SigObs([n |-> c.n.m, d |-> c.d.m]) ELSE Err("ValueError")
      [] c.op = "sum" -> CSig(CAdd(Canon(A), Canon(S[c.b])))
      [] c.op = "prod" -> CSig(CMul(Canon(A), Canon(S[c.b])))
      [] c.op \in {"abs", "norm"} -> CSig(Canon(A))
      [] c.op = "to" -> IF IsPow2(c.d.m) /\ BLe(A.d, c.d.m) THEN LET x == Canon(A) IN SigObs([n |-> BShl(x.n, Log2(c.d.m) - x.e), d |-> c.d.m]) ELSE Err("ValueError")
      [] c.op = "sigcmp" -> CmpObs(Cmp(A, S[c.b]))
      [] c.op = "note" -> LET p == ToneArg(S, c.tone) v == VelArg(c.vel, ThreeQuarters) IN
            IF p.ok /\ VelocityOk(Canon(v)) THEN NoteObs(p.p, DurArg(S, c.dur, Quarter), v) ELSE Err("ValueError")
      [] c.op = "toneof" -> ToneObs(A.p)
      [] c.op = "durof" -> SigObs(A.d)
      [] c.op = "velof" -> [t |-> "num", n |-> A.v.n, d |-> A.v.d]
      [] c.op = "ntrans" -> NoteObs(IAdd(A.p, c.k), A.d, A.v)
      [] c.op = "ndur" -> NoteObs(A.p, DurArg(S, c.dur, Quarter), A.v)
      [] c.op = "nvel" -> IF VelocityOk(Canon(c.vel)) THEN NoteObs(A.p, A.d, FracOf(c.vel)) ELSE Err("ValueError")
      [] c.op = "notecmp" -> CmpObs(NoteCmp(NoteOf(A), NoteOf(S[c.b])))
      [] c.op = "chord" -> LET b == BaseArg(S, c.base) IN IF b.ok THEN [t |-> "list", l |-> ChordOf(c.name, b, GivenDur(S, c.dur), c.vel)] ELSE Err("ValueError")
      [] c.op = "track" -> TrackObs(DurArg(S, c.sig, FourFour), <<>>)
      [] c.op = "trackof" -> LET t == Filled(S, c) IN TrackObs(t.sig, t.ents)
      [] c.op \in {"add", "copyin", "drop"} -> [t |-> "ok"]
      [] c.op = "badadd" -> Err("TypeError")
      [] c.op = "iter" -> [t |-> "list", l |-> EntsObs(A.ents)]
      [] c.op = "pick" -> LET e == EntsObs(A.ents)[(c.k % Len(A.ents)) + 1] IN [t |-> "pair", at |-> e.at, note |-> [p |-> e.p, d |-> e.d, v |-> e.v]]
      [] c.op = "peek" -> IF A.ents = <<>> THEN None ELSE LET e == EntsObs(A.ents)[1] IN [t |-> "pair", at |-> e.at, note |-> [p |-> e.p, d |-> e.d, v |-> e.v]]
      [] c.op = "count" -> [t |-> "int", i |-> IntOf(Len(A.ents))]
      [] c.op = "length" -> CSig(Length(TrackOfRef(S, c.a)))
      [] c.op = "tsig" -> SigObs(A.sig)
      [] c.op = "teq" -> LET b == SameTrack(TrackOfRef(S, c.a), TrackOfRef(S, c.b)) IN [eq |-> BoolObs(b), ne |-> BoolObs(~b)]
      [] c.op = "text" -> TxtObs(TextOf(A))
      [] c.op \in {"repr", "copy"} -> (CASE A.t = "tone" -> ToneObs(A.p) [] A.t = "sig" -> SigObs(A) [] A.t = "note" -> NoteObs(A.p, A.d, A.v) [] A.t = "track" -> TrackObs(A.sig, A.ents))
      [] c.op = "rand" -> TrackObs(A.sig, [i \in 1..Len(A.ents) |-> [A.ents[i] EXCEPT !.v = Clamp(Canon(c.mean), Canon(c.lo), Canon(c.hi))]])
      [] c.op = "write" -> LET t == TrackOfRef(S, c.a) cfg == CfgArg(c) IN
            IF Expressible(t, cfg) /\ GapsFit(t, cfg) THEN [t |-> "bytes", b |-> WriteBytes(t, cfg)] ELSE Err("ValueError")
      [] c.op = "read" -> LET s == Run(A.b) IN
            IF c.chan # -1 /\ c.chan \notin Channels(s.ev) THEN Err("ValueError") ELSE LET u == ReadTrack(A.b, c.mc, c.chan) IN TrackObs(u.sig, u.ents)
With(c, o) == [x \in DOMAIN c \cup {"obs"} |-> IF x = "obs" THEN o ELSE c[x]]

----------------------------------------------------------------------------
Start == <<[t |-> "tone", p |-> I(60)], [t |-> "sig", n |-> <<3>>, d |-> <<8>>], NoteVal(I(60), F(1, 4), F(1, 2)),
           [t |-> "track", sig |-> FourFour, ents |-> <<>>],
           [t |-> "track", sig |-> F(3, 4), ents |-> <<[at |-> CZero, p |-> I(60), d |-> Canon(F(1, 4)), v |-> Canon(F(1, 2))]>>]>>
Init == store = (IF Some THEN <<>> ELSE Start) /\ hist = <<>> /\ last = [op |-> "none"]
Do(c) == LET d == With(c, Result(store, c)) IN store' = After(store, d) /\ last' = d /\ hist' = Append(hist, [x \in DOMAIN c \cup {"new"} |-> IF x = "new" THEN Len(Adds(d)) ELSE c[x]])
Step == IF Some THEN \E k \in {RandomElement(LET ok == {i \in DOMAIN Kinds : OpsOf(Kinds[i], store) # {}} IN ok)} : \E c \in OpsOf(Kinds[k], store) : Do(c)
        ELSE \E k \in {Kinds[i] : i \in DOMAIN Kinds} : \E c \in OpsOf(k, store) : Do(c)
Next == Len(hist) < Depth /\ Step

TypeOK == \A i \in DOMAIN store : LET x == store[i] IN
    CASE x.t = "tone" -> IsInt(x.p)
      [] x.t = "sig" -> WellFormed(x)
      [] x.t = "note" -> NoteWF(x) /\ VelocityOk(Canon(x.v))
      [] x.t = "track" -> WellFormed(x.sig) /\ \A j \in DOMAIN x.ents : VelocityOk(x.ents[j].v)
      [] x.t = "file" -> Complete(Run(x.b))
      [] x.t = "gone" -> TRUE
\* the outcome chosen is one that System allows: the conditions can be met
Meets == last.op \notin {"none", "freq"} => (LET S == SubSeq(store, 1, Len(store) - Len(Adds(last))) IN
             IF last.op \in {"add", "copyin", "drop"} THEN TRUE ELSE Outcome(S, last) = <<>>)
\* what is written and can be read back exactly, is
RoundTrip == (last.op = "write" /\ last.obs.t = "bytes") => (
    LET t == TrackOfRef(store, last.a) cfg == CfgArg(last) u == ReadTrack(last.obs.b, cfg.mc, -1)
        ex(e) == [at |-> e.at, p |-> e.p, d |-> e.d, lv |-> Level(e.v)] IN
    (Clean(t) /\ Audible(t) /\ OnGrid(t, cfg) /\ t.sig.n # <<>>) =>
        /\ u.sig = t.sig /\ SameBag([i \in 1..Len(u.ents) |-> ex(u.ents[i])], [i \in 1..Len(t.ents) |-> ex(t.ents[i])])
        /\ WriteBytes(u, cfg) = last.obs.b)
Inv == TypeOK /\ Meets /\ RoundTrip
View == <<store, last, Len(hist)>>
Emit == (Some /\ Len(hist) = Depth) => PrintT("CASE|" \o ToJson(hist))
=============================================================================
