------------------------------ MODULE Velocity ------------------------------
(* Randomizing velocities: clamping, and what independent normal draws of a  *)
(* given mean and variance may look like.                                    *)
EXTENDS Tracks

Clamp(x, lo, hi) == IF CLt(x, lo) THEN lo ELSE IF CLt(hi, x) THEN hi ELSE x
\* |x - y| <= 2^-40
Close(x, y) == LET m == IF x.e > y.e THEN x.e ELSE y.e
                   a == BShl(x.n, m - x.e) b == BShl(y.n, m - y.e)
                   df == IF BLe(b, a) THEN BSub(a, b) ELSE BSub(b, a)
               IN BLe(BShl(df, 40), BPow2(m))
Bare(e) == [at |-> e.at, p |-> e.p, d |-> e.d]
BareAll(es) == [i \in 1..Len(es) |-> Bare(es[i])]

\* a count k of n <= 12000 independent draws, each true with probability q/1000, within 7.5 standard deviations
CountOk(k, n, q) ==
    LET dev == k * 1000 - n * q
        d == (IF dev < 0 THEN -dev ELSE dev) \div 1000
        room == (57 * n * q) \div 1000
    IN IF d <= 2 THEN TRUE ELSE IF d > 600 THEN FALSE
       ELSE ((d - 2) * (d - 2) * 1000) \div (1000 - q) <= room

\* normal distribution: below mean + z quarters of a standard deviation, per mille
Normal == <<<<-8, 23>>, <<-4, 159>>, <<-1, 401>>, <<0, 500>>, <<1, 599>>, <<4, 841>>, <<8, 977>>>>
CSub(a, b) == LET m == IF a.e > b.e THEN a.e ELSE b.e IN CMk(BSub(BShl(a.n, m - a.e), BShl(b.n, m - b.e)), m)
CTimes(a, k) == CMk(BMulSmall(a.n, k), a.e)
Quarters(std, k) == LET x == CTimes(std, k) IN CMk(x.n, x.e + 2)
MarkExists(mean, std, z) == z >= 0 \/ CLe(Quarters(std, -z), mean)
Mark(mean, std, z) == IF z >= 0 THEN CAdd(mean, Quarters(std, z)) ELSE CSub(mean, Quarters(std, -z))
CountBelow(vs, x) == Cardinality({i \in DOMAIN vs : CLt(vs[i], x)})
BothBelow(vs, ws, x) == Cardinality({i \in DOMAIN vs : CLt(vs[i], x) /\ CLt(ws[i], x)})
=============================================================================
