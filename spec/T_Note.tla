------------------------------- MODULE T_Note -------------------------------
(* C06: recorded Note operations against Notes. *)
EXTENDS TraceBase, Notes

NoteIs(o, n) == IF o.t = "note" THEN NoteWF(o) /\ NoteOf(o) = n ELSE FALSE
BoolIs(o, b) == IF o.t = "bool" THEN o.b = b ELSE FALSE
Err(o, e) == IF o.t = "err" THEN o.e = e ELSE FALSE
\* the duration exactly as given, not only its value
SameDur(o, d) == IF o.t = "note" THEN o.d.n = d.n /\ o.d.d = d.d ELSE FALSE

NewFails(c) == IF VelocityOk(Canon(c.v))
    THEN Broken(<< <<"attributes", NoteIs(c.obs, NoteOf(c))>>, <<"duration as given", SameDur(c.obs, c.d)>> >>)
    ELSE Broken(<< <<"velocity refused", Err(c.obs, "ValueError")>> >>)
BadFails(c) == Broken(<< <<"refused " \o c.what, Err(c.obs, c.e)>> >>)
DeriveFails(c) ==
    LET n == NoteOf(c) o == c.obs IN
    Broken(<< <<"transposed", NoteIs(o.trans, [n EXCEPT !.p = IAdd(@, c.q)])>>,
              <<"with duration", NoteIs(o.dur, [n EXCEPT !.d = Canon(c.d2)])>>,
              <<"with velocity", IF VelocityOk(Canon(c.v2)) THEN NoteIs(o.vel, [n EXCEPT !.v = Canon(c.v2)])
                                 ELSE Err(o.vel, "ValueError")>>,
              <<"original unchanged", NoteIs(o.self, n)>> >>)
CmpFails(c) ==
    LET k == NoteCmp(NoteOf(c.a), NoteOf(c.b)) o == c.obs IN
    Broken(<< <<"eq", BoolIs(o.eq, k = 0)>>, <<"ne", BoolIs(o.ne, k # 0)>>,
              <<"lt", BoolIs(o.lt, k < 0)>>, <<"le", BoolIs(o.le, k <= 0)>>,
              <<"gt", BoolIs(o.gt, k > 0)>>, <<"ge", BoolIs(o.ge, k >= 0)>> >>)

Fails(c) == CASE c.k = "new" -> NewFails(c)
              [] c.k = "bad" -> BadFails(c)
              [] c.k = "derive" -> DeriveFails(c)
              [] c.k = "cmp" -> CmpFails(c)
Nontrivial(c) == IF c.k = "cmp" THEN c.a # c.b /\ c.a.p = c.b.p ELSE TRUE
VARIABLE l
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), Nontrivial(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
