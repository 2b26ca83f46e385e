------------------------------ MODULE Frequency ------------------------------
(* Equal temperament, decided without roots. *)
EXTENDS Pitch, Dyadic

RECURSIVE BPower(_, _)
BPower(a, k) == IF k = 0 THEN One ELSE IF k % 2 = 0 THEN LET h == BPower(a, k \div 2) IN BMul(h, h) ELSE BMul(a, BPower(a, k - 1))
\* |f/base - 2^(e/12)| small, decided on the twelfth powers of the exact fractions:
\* f^12 against base^12 * 2^e within a relative 2^-40
FreqOk(f, base, e) ==
    LET x == Canon(f) y == Canon(base)
        \* x.n^12 * 2^(12 y.e) vs y.n^12 * 2^(e + 12 x.e)
        l0 == BPower(x.n, 12) r0 == BPower(y.n, 12)
        sl == 12 * y.e sr == e + 12 * x.e
        m == IF sl < sr THEN sl ELSE sr
        L == BShl(l0, sl - m) R == BShl(r0, sr - m)
        d == IF BLe(R, L) THEN BSub(L, R) ELSE BSub(R, L)
    IN BLe(BShl(d, 40), R)
=============================================================================
