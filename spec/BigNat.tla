------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size.  TLC's integers are 32-bit, melodia's are  *)
(* not: nominators, denominators, ticks and pitches are unbounded there.   *)
(* A number is its little-endian sequence of base-4096 limbs without a     *)
(* trailing zero limb, so equal numbers are equal sequences; zero is <<>>. *)
(* An integer is a record [s |-> 0 (>=0) or 1 (<0), m |-> magnitude].      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt

Base == 4096
Zero == <<>>
One == <<1>>

Indices(n) == [i \in 1..n |-> i]
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] # 0 THEN a
            ELSE BTrim(SubSeq(a, 1, Len(a) - 1))

\* is this value a well-formed big natural (as sent by the harness)?
IsBig(a) == /\ \A i \in DOMAIN a : a[i] \in 0..(Base - 1)
            /\ a = <<>> \/ a[Len(a)] # 0

\* n < 2^31
Big(n) == IF n = 0 THEN <<>>
          ELSE IF n < Base THEN <<n>>
          ELSE IF n < Base * Base THEN <<n % Base, n \div Base>>
          ELSE <<n % Base, (n \div Base) % Base, n \div (Base * Base)>>

\* fits a TLC integer with room to spare (< 2^24)
IsSmall(a) == Len(a) <= 2
ToInt(a) == Limb(a, 1) + Base * Limb(a, 2)

BAddC(acc, x) == LET t == x + acc[2]
                 IN <<Append(acc[1], t % Base), t \div Base>>

BAdd(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE
    LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
        r == FoldLeft(BAddC, <<<<>>, 0>>, [i \in 1..n |-> Limb(a, i) + Limb(b, i)])
    IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])

BCmp(a, b) ==
    IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
    ELSE IF a = b THEN 0
    ELSE LET m == Max({i \in DOMAIN a : a[i] # b[i]})
         IN IF a[m] < b[m] THEN -1 ELSE 1

BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BMax(a, b) == IF BLt(a, b) THEN b ELSE a
BMin(a, b) == IF BLt(b, a) THEN b ELSE a

BSubC(acc, x) == LET t == x + acc[2]          \* acc[2] is the borrow, 0 or -1
                 IN <<Append(acc[1], t % Base), IF t < 0 THEN -1 ELSE 0>>
\* a >= b
BSub(a, b) ==
    IF b = <<>> THEN a ELSE
    LET r == FoldLeft(BSubC, <<<<>>, 0>>, [i \in 1..Len(a) |-> a[i] - Limb(b, i)])
    IN BTrim(r[1])

RECURSIVE CarryOut(_, _)
CarryOut(s, c) == IF c = 0 THEN s ELSE CarryOut(Append(s, c % Base), c \div Base)

\* 0 <= k < 2^18
BMulSmall(a, k) ==
    IF a = <<>> \/ k = 0 THEN <<>> ELSE IF k = 1 THEN a ELSE
    LET r == FoldLeft(BAddC, <<<<>>, 0>>, [i \in 1..Len(a) |-> a[i] * k])
    IN CarryOut(r[1], r[2])

\* 0 < k < 2^18; the pair <<quotient, remainder>>
BDivSmall(a, k) ==
    LET r == FoldRight(LAMBDA x, acc : LET t == acc[2] * Base + x
                                       IN <<<<t \div k>> \o acc[1], t % k>>,
                       a, <<<<>>, 0>>)
    IN <<BTrim(r[1]), r[2]>>

BShiftLimbs(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a

BMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE IF Len(b) = 1 THEN BMulSmall(a, b[1])
    ELSE IF Len(a) = 1 THEN BMulSmall(b, a[1])
    ELSE FoldLeft(LAMBDA acc, i : BAdd(acc, BShiftLimbs(BMulSmall(a, b[i]), i - 1)),
                  <<>>, Indices(Len(b)))

Pow2Small == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048>>

BPow2(k) == [i \in 1..(k \div 12) |-> 0] \o <<Pow2Small[(k % 12) + 1]>>

\* a * 2^k and floor(a / 2^k)
BShl(a, k) == BShiftLimbs(BMulSmall(a, Pow2Small[(k % 12) + 1]), k \div 12)
BShr(a, k) == IF (k \div 12) >= Len(a) THEN <<>>
              ELSE BDivSmall(SubSeq(a, (k \div 12) + 1, Len(a)), Pow2Small[(k % 12) + 1])[1]

\* log2 of a limb that is a power of two, -1 for others
LimbLog(x) == IF \E j \in 1..12 : Pow2Small[j] = x
              THEN (CHOOSE j \in 1..12 : Pow2Small[j] = x) - 1 ELSE -1

IsPow2(a) == /\ a # <<>>
             /\ \A i \in 1..(Len(a) - 1) : a[i] = 0
             /\ LimbLog(a[Len(a)]) >= 0
Log2(a) == 12 * (Len(a) - 1) + LimbLog(a[Len(a)])

\* number of trailing zero bits of a # 0
LimbTz(x) == CHOOSE j \in 0..11 : /\ x % Pow2Small[j + 1] = 0
                                  /\ (x \div Pow2Small[j + 1]) % 2 = 1
TrailingZeros(a) == LET i == Min({j \in DOMAIN a : a[j] # 0})
                    IN 12 * (i - 1) + LimbTz(a[i])

----------------------------------------------------------------------------
(* Signed integers *)
IntOf(n) == IF n >= 0 THEN [s |-> 0, m |-> Big(n)] ELSE [s |-> 1, m |-> Big(-n)]
IsInt(x) == /\ x.s \in {0, 1} /\ IsBig(x.m) /\ (x.m = <<>> => x.s = 0)
MkInt(s, m) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]
INeg(x) == MkInt(1 - x.s, x.m)
IAdd(x, y) == IF x.s = y.s THEN MkInt(x.s, BAdd(x.m, y.m))
              ELSE IF BLe(y.m, x.m) THEN MkInt(x.s, BSub(x.m, y.m))
              ELSE MkInt(y.s, BSub(y.m, x.m))
ISub(x, y) == IAdd(x, INeg(y))
ICmp(x, y) == IF x.s # y.s THEN (IF x.s = 1 THEN -1 ELSE 1)
              ELSE IF x.s = 0 THEN BCmp(x.m, y.m) ELSE BCmp(y.m, x.m)
\* floor division and modulus by a small k > 0: the pair <<signed quotient, remainder in 0..k-1>>
IDivMod(x, k) ==
    LET q == BDivSmall(x.m, k) IN
    IF x.s = 0 THEN <<MkInt(0, q[1]), q[2]>>
    ELSE IF q[2] = 0 THEN <<MkInt(1, q[1]), 0>>
    ELSE <<MkInt(1, BAdd(q[1], One)), k - q[2]>>
IMulSmall(x, k) == MkInt(x.s, BMulSmall(x.m, k))
IIsSmall(x) == IsSmall(x.m)
IToInt(x) == IF x.s = 0 THEN ToInt(x.m) ELSE -ToInt(x.m)
=============================================================================
