----------------------------- MODULE MC_Velocity -----------------------------
(* Clamping on a grid of draws and bounds, and the statistical limits: they  *)
(* admit the expected count and refuse one ten deviations away.              *)
EXTENDS Velocity, TLC
VARIABLES x, lo, hi
F(k) == CMk(Big(k), 4)
Init == lo \in 0..16 /\ hi \in lo..16 /\ x = 0
Next == x < 24 /\ x' = x + 1 /\ UNCHANGED <<lo, hi>>
C == Clamp(F(x), F(lo), F(hi))
Inv == /\ CLe(F(lo), C) /\ CLe(C, F(hi)) /\ Clamp(C, F(lo), F(hi)) = C
       /\ (x \in lo..hi => C = F(x)) /\ (x < lo => C = F(lo)) /\ (x > hi => C = F(hi))
       /\ CLe(C, Clamp(F(x + 1), F(lo), F(hi)))
ASSUME \A i \in DOMAIN Normal : LET q == Normal[i][2] IN CountOk((4000 * q) \div 1000, 4000, q)
ASSUME CountOk(2000 + 200, 4000, 500) /\ ~CountOk(2000 + 320, 4000, 500) /\ ~CountOk(2000 - 320, 4000, 500)
ASSUME ~CountOk(0, 4000, 23) /\ ~CountOk(4000, 4000, 841) /\ ~CountOk(4000, 4000, 500)
=============================================================================
