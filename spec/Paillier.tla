------------------------------ MODULE Paillier ------------------------------
(* The Paillier cryptosystem with g = n + 1.                                  *)
EXTENDS Bytes
Zero == Big(0)
One == Big(1)
PCoprime(a, n) == BGcd(a, n) = One
PRange(c, n) == BLt(Zero, c) /\ BLt(c, BMul(n, n))
\* what the homomorphic operations take
PIsCt(c, n) == PRange(c, n) /\ PCoprime(c, n)
PInPlain(m, n) == BLeq(Zero, m) /\ BLt(m, n)
PEncR(m, r, n) == BMulMod(BModPow(BAdd(n, One), m, BMul(n, n)), BModPow(r, n, BMul(n, n)), BMul(n, n))
PDecL(c, lam, n) == BMulMod(BDiv(BSub(BModPow(c, lam, BMul(n, n)), One), n), BModInv(lam, n), n)
\* keys small enough to factor here
PSmall(n) == BLt(n, Big(4194304))
PFactor(k) == CHOOSE p \in 2..2048 : k % p = 0 /\ \A j \in 2..(p - 1) : k % j # 0
PLambda(k) == LET p == PFactor(k) IN (p - 1) * ((k \div p) - 1)
PDec(c, n) == PDecL(c, Big(PLambda(BigToInt(n))), n)
PPrime(k) == k > 1 /\ \A j \in 2..(k - 1) : j * j > k \/ k % j # 0
\* a product of two different primes that decryption works for
PKeyOk(n) == IF PSmall(n)
             THEN LET k == BigToInt(n)
                      p == PFactor(k)
                      q == k \div p
                  IN PPrime(p) /\ PPrime(q) /\ p # q /\ BGcd(n, Big((p - 1) * (q - 1))) = One
             ELSE ~BIsProbablePrime(n) /\ BBit(n, 0)
=============================================================================
