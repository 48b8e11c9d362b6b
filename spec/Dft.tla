-------------------------------- MODULE Dft --------------------------------
(* SP800-22 2.6: Discrete Fourier Transform (Spectral).                      *)
EXTENDS Num

(* n is the length of the given sequence; m that of the transformed one,     *)
(* which is n without its last element when n is odd.                        *)
DftLen(n) == n - (n % 2)
DftTrunc(bits) == SubSeq(bits, 1, DftLen(Len(bits)))

(* The k-th frequency component is sum_j x_j w^(jk), w = exp(-2 pi i / m).   *)
(* Coefficients[r + 1] is the integer coefficient of w^r in it.              *)
Coefficients(bits, k) ==
    LET m == Len(bits)
    IN FoldLeft(LAMBDA f, j : [f EXCEPT ![(((j - 1) * k) % m) + 1] = @ + 2 * bits[j] - 1],
                Zeros(m), [j \in 1..m |-> j])

(* nbelow: how many of the first m/2 components are below sqrt(n ln(1/0.05)).  *)
(* The term lists each component by its coefficients for short sequences, and  *)
(* refers to the transform of the input for long ones.                         *)
NBelowTerm(bits, n) ==
    LET m == Len(bits) IN
    IF m <= 40
    THEN <<"nbelow", n, [k \in 1..(m \div 2) |-> Coefficients(bits, k - 1)]>>
    ELSE <<"nbelowdft", n, m>>

DftTest(bits) ==
    LET n == Len(bits)
        x == DftTrunc(bits)
        below == NBelowTerm(x, n)
        expect == TQ(19 * n, 40)
        diff == TSub(below, expect)
        stat == TDiv(diff, TSqrt(TDiv(TMul(TI(n), TD("0.0475")), TI(4))))
    IN [obs |-> [n |-> n],
        stat |-> stat, p |-> TErfc(TDiv(TAbs(TStat), TSqrt(TI(2)))),
        reals |-> [nbelow |-> below, nbelow_expect |-> expect, diff |-> diff,
                   threshold |-> TSqrt(TMul(TLn(TI(20)), TI(n)))],
        recs |-> << <<"n >= 1000", B3(n >= 1000)>> >>]
=============================================================================
