-------------------------------- MODULE MCDft --------------------------------
EXTENDS Emit
CONSTANTS MaxN, EmitN
VARIABLES bits
vars == <<bits>>

Init == bits = << >>
Next == /\ Len(bits) < MaxN
        /\ \E b \in {0, 1} : bits' = Append(bits, b)
        /\ IF Len(bits') <= EmitN THEN EmitCalls(bits', <<Call("spectral", NoPar)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars

x == DftTrunc(bits)
m == Len(x)
C(k) == Coefficients(x, k)
(* every component is a sum over all of the elements *)
MassOK == \A k \in 0..(m - 1) : SumSeq(C(k)) = 2 * Ones(x) - m
(* component 0 is the sum; the others of a real sequence come in conjugates *)
ZeroOK == m > 0 => C(0)[1] = 2 * Ones(x) - m
ConjugateOK == \A k \in 1..(m - 1) : \A r \in 1..m :
                  C(k)[r] = C(m - k)[((m - (r - 1)) % m) + 1]
(* complementing the sequence negates every component *)
ComplementOK == \A k \in 0..(m - 1) :
    Coefficients(Complement(x), k) = [r \in 1..m |-> -C(k)[r]]
LengthOK == m = 2 * (Len(bits) \div 2)
=============================================================================
