------------------------------ MODULE MCPrint ------------------------------
(* The printed rows of sequences of every length up to MaxN (their values are    *)
(* their positions), of every width up to MaxW; and the verdicts and roundings   *)
(* of p-values k/Den.                                                            *)
EXTENDS Print
CONSTANTS MaxN, MaxW, Den
VARIABLES n, w, k
vars == <<n, w, k>>
Init == n = 1 /\ w \in 1..MaxW /\ k = 0
Next == \/ n < MaxN /\ n' = n + 1 /\ UNCHANGED <<w, k>>
        \/ n = 1 /\ k < Den /\ k' = k + 1 /\ UNCHANGED <<n, w>>
Spec == Init /\ [][Next]_vars
S == TLCEval([i \in 1..n |-> i])
R == TLCEval(RowsOf(S, w))
Flat(rows) == FoldLeft(LAMBDA a, r : a \o r, << >>, rows)
TilesOK == n <= MaxRows * w <=> (R.omit = 0)
WholeOK == R.omit = 0 => Flat(R.rows) = S
OmitOK == R.omit > 0 =>
    /\ Len(R.rows) = 2 * Ends
    /\ LET shown == TLCEval(Flat(R.rows))
           first == SubSeq(shown, 1, Ends * w)
           rest == SubSeq(shown, Ends * w + 1, Len(shown))
       IN /\ first = SubSeq(S, 1, Ends * w)
          /\ rest = SubSeq(S, n - Len(rest) + 1, n)
          /\ n - Len(shown) = R.omit * w
          /\ R.omit > 0 /\ R.omit + 2 * Ends = NRows(n, w)
WidthOK == \A i \in 1..Len(R.rows) : Len(R.rows[i]) \in 1..w /\ (i < Len(R.rows) => Len(R.rows[i]) = w)
(* k/Den in thousandths *)
F == (1000 * k) \div Den
C == LET r == (1000 * k) % Den IN
     IF r = 0 THEN "zero" ELSE IF 2 * r < Den THEN "lt" ELSE IF 2 * r = Den THEN "half" ELSE "gt"
RoundedOK == \A x \in 0..1000 : RoundOK(x, F, C) <=> 2 * Abs(x * Den - 1000 * k) <= Den
VerdictOK == (Verdict(k * (1000000000 \div Den)) = "PASS") = (100 * k >= Den)
=============================================================================
