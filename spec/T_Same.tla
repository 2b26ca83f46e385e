------------------------------- MODULE T_Same -------------------------------
(* C27: a family of tracks, each written with the same settings. *)
EXTENDS TraceBase, Writer
VARIABLE l
Val(o) == [sig |-> [n |-> o.sig.n, d |-> o.sig.d], ents |-> [i \in 1..Len(o.l) |-> EntryOf(o.l[i])]]
Alike(a, b) == a.sig = b.sig /\ SameBag(a.ents, b.ents)
SameOut(a, b) == IF a.t = "bytes" /\ b.t = "bytes" THEN a.b = b.b ELSE a.t = "err" /\ b.t = "err"
Cases(c) == LET v == [i \in 1..Len(c.tracks) |-> Val(c.tracks[i])] IN
    << <<"equal tracks are written differently", \A i \in DOMAIN v : \A j \in DOMAIN v : (i < j /\ Alike(v[i], v[j])) => SameOut(c.outs[i], c.outs[j])>> >>
Fails(c) == Broken(Cases(c))
Nontrivial(c) == LET a == Val(c.tracks[1]) IN Len(a.ents) > 1 /\ Alike(a, Val(c.tracks[2])) /\ c.outs[1].t = "bytes"
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), Nontrivial(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
