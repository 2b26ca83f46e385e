------------------------------- MODULE T_Rand -------------------------------
(* C23: recorded calls of randomize_velocities. *)
EXTENDS TraceBase, Velocity
VARIABLE l
Ents(s) == [i \in 1..Len(s) |-> EntryOf(s[i])]
ListWF(o) == WellFormed(o.sig) /\ \A i \in DOMAIN o.l : NoteWF(o.l[i]) /\ WellFormed(o.l[i].at)
SameTrackObs(o, sig, es) == IF o.t = "track" THEN ListWF(o) /\ o.sig.n = sig.n /\ o.sig.d = sig.d /\ SameBag(Ents(o.l), es) ELSE FALSE
RandFails(c) ==
    LET es == Ents(c.l) o == c.obs lo == Canon(c.min) hi == Canon(c.max) mean == Canon(c.mean) IN
    IF o.t # "track" THEN <<"no track returned">>
    ELSE IF ~ListWF(o) THEN <<"malformed track">>
    ELSE LET rs == Ents(o.l) IN
      Broken(<< <<"time signature", o.sig.n = c.sig.n /\ o.sig.d = c.sig.d>>,
                <<"positions, tones or durations", SameBag(BareAll(rs), BareAll(es))>>,
                <<"velocity below the minimum", \A i \in DOMAIN rs : CLe(lo, rs[i].v)>>,
                <<"velocity above the maximum", \A i \in DOMAIN rs : CLe(rs[i].v, hi)>>,
                <<"zero variance", c.var.n = <<>> => \A i \in DOMAIN rs : Close(rs[i].v, Clamp(mean, lo, hi))>>,
                <<"input track changed", SameTrackObs(c.after, c.sig, es)>>,
                <<"the input track itself was returned", c.same = 0>> >>)
BadFails(c) == Broken(<< <<"not refused with ValueError: " \o c.what, IF c.obs.t = "err" THEN c.obs.e = "ValueError" ELSE FALSE>>,
                         <<"input track changed", SameTrackObs(c.after, c.sig, Ents(c.l))>> >>)
\* velocities of one call, and of a second one, on a track of many notes, two at each position
StatFails(c) ==
    LET vs == [i \in 1..Len(c.vs) |-> Canon(c.vs[i])]
        ws == [i \in 1..Len(c.ws) |-> Canon(c.ws[i])]
        n == Len(vs) mean == Canon(c.mean) std == Canon(c.std)
        lo == Canon(c.min) hi == Canon(c.max)
        half == n \div 2
        evens == [i \in 1..half |-> vs[2 * i]]
        odds == [i \in 1..half |-> vs[2 * i - 1]]
        \* marks inside the bounds only: outside them everything is clamped
        marks == SelectSeq(Normal, LAMBDA z : MarkExists(mean, std, z[1]) /\ CLt(lo, Mark(mean, std, z[1])) /\ CLe(Mark(mean, std, z[1]), hi))
    IN IF n # c.n \/ Len(ws) # c.n THEN <<"notes lost or invented">> ELSE
       Broken([i \in 1..Len(marks) |-> <<"draws are not normal with the given mean and variance",
                                           CountOk(CountBelow(vs, Mark(mean, std, marks[i][1])), n, marks[i][2])>>]
              \o << <<"neighbouring draws depend on each other", CountOk(BothBelow(evens, odds, mean), half, 250)>>,
                    <<"two calls depend on each other", CountOk(BothBelow(vs, ws, mean), n, 250)>>,
                    <<"repeated draws", CLt(lo, mean) /\ CLt(mean, hi) => Cardinality({vs[i] : i \in DOMAIN vs}) * 16 > n>> >>)
Fails(c) == CASE c.k = "rand" -> RandFails(c) [] c.k = "bad" -> BadFails(c) [] c.k = "stat" -> StatFails(c)
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), Trace[l].k # "rand" \/ Len(Trace[l].l) > 0) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
