----------------------------- MODULE Generators -----------------------------
(* The multiplicative congruential generator x -> 16807 x mod 2^31 - 1, in the   *)
(* integers of TLC (Schrage's method), and the bits it gives.                    *)
EXTENDS Num
Mod == 2147483647
Mul == 16807
(* a x mod m, where a < m \div a and x < m *)
Schrage(a, m, x) ==
    LET q == m \div a
        r == m % a
        t == a * (x % q) - r * (x \div q)
    IN IF t < 0 THEN t + m ELSE t
NextState(x) == Schrage(Mul, Mod, x)
(* whether x is at least half of the modulus *)
BitOf(m, x) == IF x >= m - x THEN 1 ELSE 0
(* a seed is given by its sign and its digits in base 10^4, the greatest first *)
SeedState(sign, digits) ==
    LET v == FoldLeft(LAMBDA a, d : LET s == Schrage(10000, Mod, a) IN IF s >= Mod - d THEN s - (Mod - d) ELSE s + d,
                      0, digits)
    IN IF sign >= 0 \/ v = 0 THEN v ELSE Mod - v
=============================================================================
