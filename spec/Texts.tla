-------------------------------- MODULE Texts --------------------------------
(* The text forms, as sequences of character codes. *)
EXTENDS Tracks, Pitch

Slash == 47
SigText(s) == Decimal(MkInt(0, s.n)) \o <<Slash>> \o Decimal(MkInt(0, s.d))
\* a number in 0..1, canonical, in thousandths: rounded to the nearest, halves to the even neighbour
Thousandths(v) ==
    LET x == BMulSmall(v.n, 1000)
        q == BShr(x, v.e)
        r == BSub(x, BShl(q, v.e))
        k == BCmp(BShl(r, 1), BPow2(v.e))
        n == ToInt(q)
    IN IF k > 0 \/ (k = 0 /\ n % 2 = 1) THEN n + 1 ELSE n
VelocityText(v) == LET k == Thousandths(v) IN
    <<48 + (k \div 1000), 46, 48 + ((k \div 100) % 10), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
\* "Note <duration> <tone> (<velocity>)"
NoteText(n) == <<78, 111, 116, 101, 32>> \o SigText(n.d) \o <<32>> \o Spell(n.p, FALSE) \o <<32, 40>> \o VelocityText(Canon(n.v)) \o <<41>>
\* "Track <signature> with <count> notes"
TrackText(sig, n) == <<84, 114, 97, 99, 107, 32>> \o SigText(sig) \o <<32, 119, 105, 116, 104, 32>> \o Decimal(IntOf(n)) \o <<32, 110, 111, 116, 101, 115>>
=============================================================================
