------------------------------ MODULE MC_Canon ------------------------------
(***************************************************************************)
(* C27: what is written for a track is a function of the track's value.    *)
(* Tracks grow by additions in any order; two tracks with the same         *)
(* contents must be written alike.  CANON=0 is the negative control: a     *)
(* writer that goes by the order of addition where positions are equal.    *)
(***************************************************************************)
EXTENDS Writer, IOUtils
Canonical == IOEnv.CANON = "1"
Depth == atoi(IOEnv.DEPTH)
Cfg == [ppq |-> 2, ch |-> 0, mc |-> IntOf(36), bpm |-> [n |-> <<120>>, d |-> <<1>>]]
C(n, d) == Canon([n |-> Big(n), d |-> Big(d)])
Shapes == {[at |-> a, p |-> IntOf(p), d |-> d, v |-> v] : a \in {C(0, 1), C(1, 8), C(3, 16)}, p \in {60, 61}, d \in {C(0, 1), C(1, 8)}, v \in {C(1, 2)}} \cup
          {[at |-> C(0, 1), p |-> IntOf(60), d |-> C(1, 8), v |-> C(1, 1)]}
VARIABLES a, b
Init == a = <<>> /\ b = <<>>
Next == \/ Len(a) < Depth /\ b = <<>> /\ \E x \in Shapes : a' = Append(a, x) /\ UNCHANGED b
        \/ Len(b) < Len(a) /\ \E x \in ToSet(a) : b' = Append(b, x) /\ UNCHANGED a
T(s) == [sig |-> [n |-> <<4>>, d |-> <<4>>], ents |-> s]
\* the control: stable by position only
ByAddition(s) == LET idx == SortSeq(Indices(Len(s)), LAMBDA i, j : CLt(s[i].at, s[j].at) \/ (s[i].at = s[j].at /\ i < j)) IN [k \in 1..Len(s) |-> s[idx[k]]]
Bytes(s) == IF Canonical THEN WriteBytes(T(s), Cfg) ELSE
    LET es == ByAddition(s) IN FileBytes(2, FoldLeft(LAMBDA x, i : x \o <<OnEvent(es[i], Cfg).p>>, <<>>, Indices(Len(es))))
Same == SameBag(a, b) => Bytes(a) = Bytes(b)
\* what is written says what the track holds
Says == (Canonical /\ b = <<>>) => LET s == Run(WriteBytes(T(a), Cfg)) f == Faithful(s, T(a), Cfg) IN \A i \in DOMAIN f : f[i][1] = "a note of a clean track is cut or swallowed" \/ f[i][2]
Inv == Same /\ Says
=============================================================================
