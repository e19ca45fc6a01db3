-------------------------------- MODULE Fixed --------------------------------
(* Fixed point arithmetic within TLC's 32 bit integers.                       *)
(* Lengths in angstroms are integers in units of 1e-4 A; coordinates in the   *)
(* microscope frame are integers in units of 1e-6 of the frame.               *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
NearSeq(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* Truncating towards minus infinity is what TLC's \div does; rounding error
\* of these operators is below 3 units.
\* u: 1e-6 units of a frame, w: length in 1e-4 A.  Result: u*w in 1e-4 A.
Scale6(u, w) == ((u \div 1000) * (w \div 100)) \div 10
                + ((u \div 1000) * (w % 100)) \div 1000
                + ((u % 1000) * (w \div 1000)) \div 1000
\* d, w: lengths in the same unit.  Result: d / w in 1e-6 units (|d| < 20 w).
Ratio6(d, w) == LET q == (d * 100) \div w         \* 1e-2
                    r == d * 100 - q * w            \* 0 <= r < w
                    q2 == (r * 100) \div w          \* 1e-4
                    r2 == r * 100 - q2 * w
                IN q * 10000 + q2 * 100 + (r2 * 100) \div w

\* Squared distance of two points given in 1e-4 A, in units of (1e-2 A)^2.
D2c(p, q) == LET dx == (p[1] - q[1]) \div 100
                 dy == (p[2] - q[2]) \div 100
             IN dx * dx + dy * dy
\* Squared distance in (1e-3 A)^2, for points less than 25 A apart.
D2m(p, q) == LET dx == (p[1] - q[1] + 5) \div 10
                 dy == (p[2] - q[2] + 5) \div 10
             IN dx * dx + dy * dy

IntToNat(x) == IF x < 0 THEN -x ELSE x

\* A count of c out of n with probability p (in 1e-4 units) is within six standard deviations of n * p.
Plausible(c, n, p) ==
  LET d == (c * 10000 - n * p) \div 100                  \* 1e-2 counts
  IN /\ c >= 0 /\ c <= n
     /\ p = 0 => c = 0
     /\ p = 10000 => c = n
     /\ Abs(d) <= 40000
     /\ d * d <= (((p * (10000 - p)) \div 10000) * 36) * n + 10000

=============================================================================
