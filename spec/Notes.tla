-------------------------------- MODULE Notes --------------------------------
(* Notes and the entries of tracks as values.  A note is [p, d, v]: pitch   *)
(* (signed), duration and velocity (dyadic fractions, canonical).           *)
EXTENDS Dyadic, FiniteSets

NoteOf(x) == [p |-> x.p, d |-> Canon(x.d), v |-> Canon(x.v)]
NoteWF(x) == IsInt(x.p) /\ WellFormed(x.d) /\ IsBig(x.v.n) /\ IsBig(x.v.d) /\ IsPow2(x.v.d)

CUnit == [n |-> One, e |-> 0]
VelocityOk(v) == CLe(v, CUnit)

\* lexicographic: pitch, duration, velocity
NoteCmp(x, y) == LET a == ICmp(x.p, y.p) IN
                 IF a # 0 THEN a ELSE
                 LET b == CCmp(x.d, y.d) IN
                 IF b # 0 THEN b ELSE CCmp(x.v, y.v)

EntryOf(x) == [at |-> Canon(x.at), p |-> x.p, d |-> Canon(x.d), v |-> Canon(x.v)]
EntryEnd(x) == CAdd(x.at, x.d)

\* the same elements with the same multiplicities
Copies(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) ==
    IF Len(s) # Len(t) THEN FALSE
    ELSE IF s = t THEN TRUE
    ELSE LET S == ToSet(s) IN
         IF S # ToSet(t) THEN FALSE
         ELSE Cardinality(S) = Len(s) \/ \A x \in S : Copies(s, x) = Copies(t, x)
Ascending(s) == \A i \in 1..(Len(s) - 1) : CLe(s[i].at, s[i + 1].at)
=============================================================================
