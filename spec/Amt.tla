-------------------------------- MODULE Amt --------------------------------
(***************************************************************************)
(* Satoshi amounts.  TLC's integers have 32 bits, so an amount is a pair   *)
(* <<hi, lo>> meaning hi * 10^9 + lo with 0 <= lo < 10^9.  Negative        *)
(* amounts have a negative hi.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 1000000000

Zero == <<0, 0>>

(* n is any TLC integer *)
Amount(n) == <<n \div Base, n % Base>>

Norm(hi, lo) == IF lo >= Base THEN <<hi + 1, lo - Base>>
                ELSE IF lo < 0 THEN <<hi - 1, lo + Base>>
                ELSE <<hi, lo>>

Plus(a, b)  == Norm(a[1] + b[1], a[2] + b[2])
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Neg(a)      == Minus(Zero, a)
Lt(a, b)    == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b)    == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Gt(a, b)    == Lt(b, a)
Ge(a, b)    == Le(b, a)
Min2(a, b)  == IF Le(a, b) THEN a ELSE b
Max2(a, b)  == IF Le(a, b) THEN b ELSE a
IsNeg(a)    == a[1] < 0
PlusN(a, n) == Plus(a, Amount(n))

(* a times a small natural number, n <= 1000, a >= 0 *)
Times(a, n) ==
    LET top == a[2] \div 1000000
        low == a[2] % 1000000
        t   == top * n
    IN  Norm(a[1] * n + t \div 1000, (t % 1000) * 1000000 + low * n)

(* a divided by a small positive number, n <= 1000, a >= 0, rounded down *)
Div(a, n) ==
    LET r0 == a[1] % n
        x1 == r0 * 1000 + a[2] \div 1000000
        r1 == x1 % n
        x2 == r1 * 1000 + ((a[2] \div 1000) % 1000)
        r2 == x2 % n
        x3 == r2 * 1000 + (a[2] % 1000)
    IN  <<a[1] \div n, (x1 \div n) * 1000000 + (x2 \div n) * 1000 + x3 \div n>>

RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN Zero ELSE Plus(s[i], SumFrom(s, i + 1))
Sum(s) == SumFrom(s, 1)

=============================================================================
