---- MODULE MC_BigNat ----
EXTENDS BigNat, TLC
\* sanity of the number representation itself against TLC's own integers
Samples == {0,1,2,3,5,7,12,100,2047,4095,4096,4097,8191,16384,30000,46340}
Ref == Samples \X Samples
ASSUME \A p \in Ref : BAdd(Big(p[1]), Big(p[2])) = Big(p[1]+p[2])
ASSUME \A p \in Ref : BMul(Big(p[1]), Big(p[2])) = Big(p[1]*p[2])
ASSUME \A p \in Ref : p[1] >= p[2] => BSub(Big(p[1]), Big(p[2])) = Big(p[1]-p[2])
ASSUME \A p \in Ref : BCmp(Big(p[1]), Big(p[2])) = IF p[1]<p[2] THEN -1 ELSE IF p[1]=p[2] THEN 0 ELSE 1
ASSUME \A p \in Ref : p[2] > 0 => BDivSmall(Big(p[1]), p[2]) = <<Big(p[1] \div p[2]), p[1] % p[2]>>
ASSUME \A p \in Ref : p[2] <= 100 => /\ BShr(BShl(Big(p[1]), p[2]), p[2]) = Big(p[1])
ASSUME \A k \in 0..60 : IsPow2(BPow2(k)) /\ Log2(BPow2(k)) = k /\ TrailingZeros(BPow2(k)) = k
ASSUME \A a \in Samples, b \in Samples, sa \in {1,-1}, sb \in {1,-1} :
   /\ IAdd(IntOf(sa*a), IntOf(sb*b)) = IntOf(sa*a+sb*b)
   /\ ICmp(IntOf(sa*a), IntOf(sb*b)) = (IF sa*a < sb*b THEN -1 ELSE IF sa*a = sb*b THEN 0 ELSE 1)
   /\ b > 0 => IDivMod(IntOf(sa*a), b) = <<IntOf((sa*a) \div b), (sa*a) % b>>
ASSUME \A a \in {x \in Samples : x > 0} : BShl(Big(a), 30) = BMul(Big(a), BMul(Big(32768), Big(32768)))
VARIABLE x
Init == x = 0
Next == x' = x
====
