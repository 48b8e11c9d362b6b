-------------------------------- MODULE Num --------------------------------
(* Integer arithmetic used by every other module, and the term language in *)
(* which the modules write real-valued results (TLC has no reals): a term  *)
(* is a tuple <<operator, operand, ...>>, evaluated to 40 digits by        *)
(* harness/terms.py.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == MaxI(lo, MinI(x, hi))
CeilDiv(a, b) == -((-a) \div b)

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA x, y : MaxI(x, y), s[1], s)

(* floor(log2(n)) for 1 <= n < 2^31 *)
ILog2(n) == CHOOSE k \in 0..30 : 2^k <= n /\ (k = 30 \/ n < 2^(k + 1))

(* floor(sqrt(n)) for 0 <= n < 2^31 (46340^2 < 2^31) *)
ISqrt(n) == FoldLeft(LAMBDA r, b : IF r + b <= 46340 /\ (r + b) * (r + b) <= n
                                   THEN r + b ELSE r,
                     0, [i \in 1..16 |-> 2^(16 - i)])

(* ceil(ln(n)) for 2 <= n < 2 * 10^9: the k-th entry is floor(e^k) *)
FloorExp == <<2, 7, 20, 54, 148, 403, 1096, 2980, 8103, 22026, 59874, 162754, 442413,
              1202604, 3269017, 8886110, 24154952, 65659969, 178482300, 485165195,
              1318815734>>
CeilLn(n) == 1 + Cardinality({k \in DOMAIN FloorExp : n > FloorExp[k]})

(* symmetric difference: addition of GF(2) vectors given as sets of indices *)
Xor(A, B) == (A \ B) \cup (B \ A)

(* TLCEval: TLC evaluates functions lazily, and again at every application *)
Zeros(n) == TLCEval([i \in 1..n |-> 0])

-----------------------------------------------------------------------------
(* Terms *)
TI(n) == <<"i", n>>                              \* an integer
TQ(a, b) == <<"q", a, b>>                        \* the rational a / b
TD(s) == <<"d", s>>                              \* a decimal literal
TAdd(s) == <<"add", s>>                          \* sum of a sequence of terms
TSub(a, b) == <<"sub", a, b>>
TMul(a, b) == <<"mul", a, b>>
TDiv(a, b) == <<"div", a, b>>
TNeg(a) == <<"neg", a>>
TSq(a) == <<"sq", a>>
TPow2(k) == <<"pow2", k>>                        \* 2^k for an integer k
TSqrt(a) == <<"sqrt", a>>
TAbs(a) == <<"abs", a>>
TLn(a) == <<"ln", a>>
TLog2(a) == <<"log2", a>>
TExp(a) == <<"exp", a>>
TErfc(a) == <<"erfc", a>>
TQG(a, x) == <<"gq", a, x>>                      \* upper regularised incomplete gamma
TNcdf(a) == <<"ncdf", a>>
T1F1(a, b, x) == <<"1f1", a, b, x>>
TMax0(a) == <<"max0", a>>
TClamp01(a) == <<"clamp01", a>>
TStat == <<"stat">>                              \* the statistic which a p-value is of

(* The chi-square test of observed tallies against expected ones *)
ChiStat(obs, exps) ==
    TAdd([i \in 1..Len(obs) |-> TDiv(TSq(TSub(TI(obs[i]), exps[i])), exps[i])])
ChiP(df) == TQG(TQ(df, 2), TDiv(TStat, TI(2)))
Scaled(decimals, n) == [i \in 1..Len(decimals) |-> TMul(TI(n), TD(decimals[i]))]

(* Truth values of recommendations.  "E": either, at an exact tie of a      *)
(* comparison which involves an inexact decimal. <<label, "term", t>>: the    *)
(* evaluated term decides.                                                  *)
B3(b) == IF b THEN "T" ELSE "F"

-----------------------------------------------------------------------------
(* Sequences of bits *)
NBlocks(bits, size) == Len(bits) \div size
Blocks(bits, size) ==
    TLCEval([j \in 1..NBlocks(bits, size) |-> SubSeq(bits, (j - 1) * size + 1, j * size)])
Ones(bits) == FoldLeft(LAMBDA x, y : x + y, 0, bits)
(* the big-endian value of a sequence of bits *)
Value(bits) == FoldLeft(LAMBDA x, y : 2 * x + y, 0, bits)
(* all sequences of n bits *)
Words(n) == [1..n -> {0, 1}]

(* how often each element of a sequence of naturals 0..top occurs *)
Tally(s, top) ==
    FoldLeft(LAMBDA f, x : [f EXCEPT ![x + 1] = @ + 1], Zeros(top + 1), s)
(* set of pairs <<value, multiplicity>> of a sequence *)
Histogram(s) == LET vs == ToSet(s) IN
    { <<v, FoldLeft(LAMBDA c, x : IF x = v THEN c + 1 ELSE c, 0, s)>> : v \in vs }
=============================================================================
