------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Non-negative dyadic fractions: what a melodia Signature (position,      *)
(* duration, time signature) denotes; floats such as velocities are dyadic *)
(* fractions too.  A fraction is [n |-> BigNat, d |-> BigNat].             *)
(***************************************************************************)
EXTENDS BigNat

Frac(n, d) == [n |-> Big(n), d |-> Big(d)]

\* what Signature may hold
WellFormed(s) == IsBig(s.n) /\ IsBig(s.d) /\ IsPow2(s.d)

\* canonical form: n odd (or zero) over 2^e; equal values have equal forms
Canon(s) ==
    IF s.n = <<>> THEN [n |-> <<>>, e |-> 0]
    ELSE LET l == Log2(s.d)
             t == TrailingZeros(s.n)
             k == IF t < l THEN t ELSE l
         IN [n |-> BShr(s.n, k), e |-> l - k]

CZero == [n |-> <<>>, e |-> 0]
CMk(n, e) == IF n = <<>> THEN CZero
             ELSE LET t == TrailingZeros(n)
                      k == IF t < e THEN t ELSE e
                  IN [n |-> BShr(n, k), e |-> e - k]

\* arithmetic and order on canonical forms
CCmp(a, b) == IF a.e = b.e THEN BCmp(a.n, b.n)
              ELSE IF a.e < b.e THEN BCmp(BShl(a.n, b.e - a.e), b.n)
              ELSE BCmp(a.n, BShl(b.n, a.e - b.e))
CLt(a, b) == CCmp(a, b) < 0
CLe(a, b) == CCmp(a, b) <= 0
CMax(a, b) == IF CLt(a, b) THEN b ELSE a
CAdd(a, b) == IF a.e = b.e THEN CMk(BAdd(a.n, b.n), a.e)
              ELSE IF a.e < b.e THEN CMk(BAdd(BShl(a.n, b.e - a.e), b.n), b.e)
              ELSE CMk(BAdd(a.n, BShl(b.n, a.e - b.e)), a.e)
CMul(a, b) == CMk(BMul(a.n, b.n), a.e + b.e)

\* order and arithmetic on fractions
Cmp(a, b) == CCmp(Canon(a), Canon(b))
Eq(a, b) == Canon(a) = Canon(b)

\* floor(k * s) for small k (< 2^18), as a BigNat; s canonical
CFloorMul(s, k) == BShr(BMulSmall(s.n, k), s.e)
\* is k*s a whole number?
CWhole(s, k) == LET x == BMulSmall(s.n, k)
                IN x = <<>> \/ TrailingZeros(x) >= s.e
=============================================================================
