------------------------------- MODULE MC_Sig -------------------------------
(***************************************************************************)
(* The algorithms of Signature (common denominator, halving loop) as the   *)
(* code performs them, explored exhaustively on a box of fractions and     *)
(* shown to compute what Dyadic defines.                                   *)
(***************************************************************************)
EXTENDS Dyadic, TLC
N == 12
E == 4
Box == {<<n, e>> : n \in 0..N, e \in 0..E}
Pw(e) == 2^e
F(x) == Frac(x[1], Pw(x[2]))
\* two operands and the registers of the algorithms: scaling (a,b), reduction (r)
VARIABLES a, b, pc, sa, sb, r
vars == <<a, b, pc, sa, sb, r>>
Init == a \in Box /\ b \in Box /\ pc = "scale" /\ sa = 0 /\ sb = 0 /\ r = a
Scale == /\ pc = "scale"
         /\ IF a[2] >= b[2] THEN sa' = a[1] /\ sb' = Pw(a[2] - b[2]) * b[1]
                            ELSE sa' = Pw(b[2] - a[2]) * a[1] /\ sb' = b[1]
         /\ pc' = "halve" /\ UNCHANGED <<a, b, r>>
Halve == /\ pc = "halve" /\ r[1] % 2 = 0 /\ r[2] > 0
         /\ r' = <<r[1] \div 2, r[2] - 1>> /\ UNCHANGED <<a, b, pc, sa, sb>>
Stop == /\ pc = "halve" /\ ~(r[1] % 2 = 0 /\ r[2] > 0) /\ pc' = "done" /\ UNCHANGED <<a, b, sa, sb, r>>
Next == Scale \/ Halve \/ Stop

D == IF a[2] >= b[2] THEN a[2] ELSE b[2]
OrderExact == pc # "scale" => /\ (Cmp(F(a), F(b)) < 0) = (sa < sb)
                              /\ (Cmp(F(a), F(b)) = 0) = (sa = sb)
                              /\ Eq(F(a), F(b)) = (sa = sb)
\* cross-multiplication, independently of Canon
OrderCross == /\ (Cmp(F(a), F(b)) < 0) = (a[1] * Pw(b[2]) < b[1] * Pw(a[2]))
              /\ Eq(F(a), F(b)) = (a[1] * Pw(b[2]) = b[1] * Pw(a[2]))
SumExact == pc # "scale" => CAdd(Canon(F(a)), Canon(F(b))) = Canon(Frac(sa + sb, Pw(D)))
ProductExact == CMul(Canon(F(a)), Canon(F(b))) = Canon(Frac(a[1] * b[1], Pw(a[2] + b[2])))
ValueKept == Eq(F(r), F(a))
Reduced == pc = "done" => Canon(F(a)) = [n |-> Big(r[1]), e |-> r[2]]
Inv == OrderExact /\ OrderCross /\ SumExact /\ ProductExact /\ ValueKept /\ Reduced
=============================================================================
