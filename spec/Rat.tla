-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<numerator, denominator>>, normalized, positive denominator. *)
EXTENDS Integers
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsR(n) == IF n < 0 THEN -n ELSE n
Q(n, d) == LET g == Gcd(AbsR(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
I(n) == <<n, 1>>
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Q((a[1] * (b[2] \div g)) + (b[1] * (a[2] \div g)), (a[2] \div g) * b[2])
Neg(a) == <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == LET g == Gcd(AbsR(a[1]), b[2])
                 k == Gcd(AbsR(b[1]), a[2])
             IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE <<(a[1] \div g) * (b[1] \div k), (a[2] \div k) * (b[2] \div g)>>
Inverse(a) == IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<-a[2], -a[1]>>
Div(a, b) == Mul(a, Inverse(b))
Lt(a, b) == Sub(a, b)[1] < 0
Le(a, b) == Sub(a, b)[1] <= 0
Floor(a) == a[1] \div a[2]
Ceil(a) == -((-a[1]) \div a[2])
=============================================================================
