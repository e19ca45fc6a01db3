------------------------------- MODULE Discount -------------------------------
(* The per second discount 0.9967 to the power of k half seconds, in 1e-6.    *)
EXTENDS Integers
Mul6(a, b) == ((a \div 1000) * b + ((a % 1000) * b) \div 1000 + 500) \div 1000
RECURSIVE Gamma(_)
Gamma(k) == IF k = 0 THEN 1000000
            ELSE IF k % 2 = 1 THEN LET a == Gamma(k - 1)
                                   IN a - (a * 1651 + (a \div 100) * 36 + 500000) \div 1000000
            ELSE LET h == Gamma(k \div 2) IN Mul6(h, h)
\* Each multiplication by the rounded factor adds at most two units, and the
\* value itself shrinks as fast as these errors do.
GammaTol(k) == 5 + 2 * (IF k < 300 THEN k ELSE 300)
IsGamma(d, k) == LET x == Gamma(k) - d IN (IF x < 0 THEN -x ELSE x) <= GammaTol(k)
=============================================================================
