------------------------------ MODULE MC_Chord ------------------------------
(* Every chord on every base of two octaves: sanity of the table, and the    *)
(* enumeration of calls replayed into the code.                              *)
EXTENDS Chord, TLC
VARIABLES name, p, kind, dg, vg
vars == <<name, p, kind, dg, vg>>
Kinds == {"int", "text", "tone", "note"}
Init == name \in Names /\ p = -1 /\ kind \in Kinds /\ dg \in BOOLEAN /\ vg \in BOOLEAN
Next == p < 1 /\ p' = p + 1 /\ UNCHANGED <<name, kind, dg, vg>>
Bs == [kind |-> kind, p |-> IntOf(12 * p + 5), d |-> [n |-> <<3>>, d |-> <<8>>], v |-> [n |-> <<1>>, d |-> <<2>>]]
Dur == IF dg THEN [t |-> "frac", n |-> <<>>, d |-> <<1>>] ELSE [t |-> "none"]
Vel == IF vg THEN [t |-> "num", n |-> <<>>, d |-> <<1>>] ELSE [t |-> "none"]
Ch == ChordOf(name, Bs, Dur, Vel)
Inv == /\ Ch[1].p = Bs.p
       /\ \A i \in 1..(Len(Ch) - 1) : ICmp(Ch[i].p, Ch[i + 1].p) < 0
       /\ \A i \in DOMAIN Ch : Ch[i].d = Ch[1].d /\ Ch[i].v = Ch[1].v
       /\ (dg => Ch[1].d.n = <<>>) /\ (vg => Ch[1].v.n = <<>>)
       /\ (~dg /\ kind # "note" => Ch[1].d = Quarter)
       /\ Cardinality({i \in DOMAIN Table : name \in Table[i][1]}) = 1
Emit == PrintT("CASE|" \o name \o "|" \o ToString(12 * p + 5) \o "|" \o kind \o "|" \o (IF dg THEN "1" ELSE "0") \o "|" \o (IF vg THEN "1" ELSE "0"))
=============================================================================
