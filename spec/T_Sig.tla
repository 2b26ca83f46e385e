-------------------------------- MODULE T_Sig --------------------------------
(* C01, C02: recorded Signature operations against Dyadic. *)
EXTENDS TraceBase, Dyadic

Ok(o, t) == o.t = t
SigIs(o, c) == IF o.t = "sig" THEN Canon(o) = c ELSE FALSE       \* value
SigWF(o) == IF o.t = "sig" THEN WellFormed(o) ELSE FALSE
BoolIs(o, b) == IF o.t = "bool" THEN o.b = b ELSE FALSE
Refused(o) == IF o.t = "err" THEN o.e = "ValueError" ELSE FALSE

ValidPair(n, d) == n.s = 0 /\ d.s = 0 /\ IsPow2(d.m)

\* C01
PairFails(c) ==
    LET a == Canon(c.a) b == Canon(c.b) k == CCmp(a, b) o == c.obs IN
    Broken(<< <<"eq", BoolIs(o.eq, k = 0)>>, <<"ne", BoolIs(o.ne, k # 0)>>,
              <<"lt", BoolIs(o.lt, k < 0)>>, <<"le", BoolIs(o.le, k <= 0)>>,
              <<"gt", BoolIs(o.gt, k > 0)>>, <<"ge", BoolIs(o.ge, k >= 0)>>,
              <<"add", SigIs(o.add, CAdd(a, b))>>, <<"mul", SigIs(o.mul, CMul(a, b))>> >>)
OneFails(c) ==
    LET a == Canon(c.a) o == c.obs IN
    Broken(<< <<"abs", SigIs(o.abs, a)>>, <<"normalized", SigIs(o.norm, a)>>,
              <<"to", Refused(o.to) \/ SigIs(o.to, a)>>, <<"operand", SigIs(o.self, a)>> >>)
\* C02
NewFails(c) ==
    IF ValidPair(c.n, c.d)
    THEN Broken(<< <<"accepted", IF c.obs.t = "sig" THEN c.obs.n = c.n.m /\ c.obs.d = c.d.m ELSE FALSE>> >>)
    ELSE Broken(<< <<"refused", Refused(c.obs)>> >>)
ToFails(c) ==
    LET good == c.d.s = 0 /\ IsPow2(c.d.m) /\ BLe(c.a.d, c.d.m) IN
    IF good THEN Broken(<< <<"converted", IF c.obs.t = "sig" THEN /\ WellFormed(c.obs) /\ c.obs.d = c.d.m
                                                               /\ Canon(c.obs) = Canon(c.a) ELSE FALSE>> >>)
    ELSE Broken(<< <<"refused", Refused(c.obs)>> >>)
DeriveFails(c) ==
    LET a == Canon(c.a) o == c.obs IN
    Broken(<< <<"lowest terms", IF o.norm.t = "sig" THEN /\ WellFormed(o.norm) /\ o.norm.n = a.n /\ o.norm.d = BPow2(a.e) ELSE FALSE>>,
              <<"sum well-formed", SigWF(o.add)>>, <<"product well-formed", SigWF(o.mul)>>,
              <<"abs well-formed", SigWF(o.abs)>> >>)

Fails(c) == CASE c.k = "pair" -> PairFails(c)
              [] c.k = "one" -> OneFails(c)
              [] c.k = "new" -> NewFails(c)
              [] c.k = "to" -> ToFails(c)
              [] c.k = "derive" -> DeriveFails(c)
Nontrivial(c) == CASE c.k = "pair" -> c.a.d # c.b.d
                   [] c.k = "one" -> c.a.n # <<>>
                   [] c.k = "new" -> ~ValidPair(c.n, c.d) \/ c.n.m # <<>>
                   [] OTHER -> TRUE
VARIABLE l
Init == l = 1 /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Judge(l, Fails(Trace[l]), Nontrivial(Trace[l])) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1
=============================================================================
