------------------------------- MODULE T_Tone -------------------------------
(* C03, C04, C05: recorded Tone operations against Pitch. *)
EXTENDS TraceBase, Frequency

ToneIs(o, p) == IF o.t = "tone" THEN o.p = p ELSE FALSE
IntIs(o, x) == IF o.t = "int" THEN o.i = x ELSE FALSE
TextIs(o, x) == IF o.t = "text" THEN o.c = x ELSE FALSE
BoolIs(o, b) == IF o.t = "bool" THEN o.b = b ELSE FALSE
Refused(o) == IF o.t = "err" THEN o.e = "ValueError" ELSE FALSE

\* C03
ParseFails(c) ==
    LET a == Parse(c.text) IN
    IF NotationAccepts(a) THEN Broken(<< <<"pitch of notation via " \o c.via, ToneIs(c.obs, NotationPitch(a))>> >>)
    ELSE Broken(<< <<"notation refused via " \o c.via, Refused(c.obs)>> >>)
\* C04
SpellFails(c) ==
    LET up == Spell(c.p, FALSE) down == Spell(c.p, TRUE) o == c.obs IN
    Broken(<< <<"sharp spelling", TextIs(o.up, up)>>, <<"flat spelling", TextIs(o.down, down)>>,
              <<"text form", TextIs(o.str, up)>>, <<"octave", IntIs(o.oct, Octave(c.p))>>,
              <<"sharp spelling parses back", ToneIs(o.back1, c.p)>>,
              <<"flat spelling parses back", ToneIs(o.back2, c.p)>>,
              <<"pitch", IntIs(o.pitch, c.p)>> >>)
\* C05
PairFails(c) ==
    LET k == ICmp(c.p, c.q) o == c.obs IN
    Broken(<< <<"eq", BoolIs(o.eq, k = 0)>>, <<"ne", BoolIs(o.ne, k # 0)>>,
              <<"lt", BoolIs(o.lt, k < 0)>>, <<"le", BoolIs(o.le, k <= 0)>>,
              <<"gt", BoolIs(o.gt, k > 0)>>, <<"ge", BoolIs(o.ge, k >= 0)>> >>)
TransFails(c) ==
    LET o == c.obs t == Transpose(c.p, c.q) IN
    Broken(<< <<"transposed", ToneIs(o.up, t)>>,
              <<"transposed back", ToneIs(o.back, c.p)>>,
              <<"transposed twice", ToneIs(o.twice, Transpose(t, c.r))>>,
              <<"operand", ToneIs(o.self, c.p)>> >>)

OddFails(c) == Broken(<< <<"a pitch that is not an integer refused", Refused(c.obs.make)>>, <<"transposition to a pitch that is not an integer refused", Refused(c.obs.move)>> >>)
FreqFails(c) ==
    LET o == c.obs IN
    Broken(<< <<"frequency", IF o.f.t = "num" THEN FreqOk(o.f, c.base, c.p - 57) ELSE FALSE>>,
              <<"increasing", IF o.f.t = "num" /\ o.g.t = "num" THEN CLt(Canon(o.f), Canon(o.g)) ELSE FALSE>> >>)

Fails(c) == CASE c.k = "parse" -> ParseFails(c)
              [] c.k = "spell" -> SpellFails(c)
              [] c.k = "pair" -> PairFails(c)
              [] c.k = "trans" -> TransFails(c)
              [] c.k = "freq" -> FreqFails(c)
              [] c.k = "odd" -> OddFails(c)
Nontrivial(c) == CASE c.k = "parse" -> Len(c.text) > 1
                   [] c.k = "spell" -> ~Natural(Degree(c.p))
                   [] c.k = "trans" -> c.q.m # <<>>
                   [] OTHER -> TRUE
VARIABLE l
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), Nontrivial(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
