------------------------------- MODULE MCLfsr -------------------------------
EXTENDS Emit
CONSTANTS MaxN, EmitN, DeclN
VARIABLES bits, bm
vars == <<bits, bm>>

Calls(bs) == <<Call("linear_complexity", NoPar)>> \o
             [M \in 1..Len(bs) |-> Call("linear_complexity", [blocksize |-> M])]
Init == bits = << >> /\ bm = BMInit
Next == /\ Len(bits) < MaxN
        /\ \E b \in {0, 1} : /\ bits' = Append(bits, b)
                             /\ bm' = BMStep(bits', bm)
        /\ IF Len(bits') <= EmitN
           THEN EmitLine([b |-> bits', L |-> bm'.L, c |-> Calls(bits')]) ELSE TRUE
Spec == Init /\ [][Next]_vars

(* the automaton's length is the least one *)
LeastOK == Len(bits) <= DeclN => bm.L = LinearComplexityDecl(bits)
(* its register produces the bits *)
ProducesOK == Generates(bits, bm.L, bm.C \ {0})
(* Massey: a jump is to N + 1 - L, so the length never shrinks *)
WholeOK == bm.L = LinearComplexity(bits) /\ bm.L <= Len(bits)
Grows == [][bm'.L >= bm.L /\ (bm'.L > bm.L => bm'.L = Len(bits) + 1 - bm.L)]_vars

(* T = (-1)^M (L - mu) + 2/9, in units of 1 / (36 2^M), is nearest to its class *)
T36(M, len) == LET mu == (18 * M + (IF M % 2 = 0 THEN 8 ELSE 10)) * 2^M - 4 * (3 * M + 2)
                   d == 36 * len * 2^M - mu
               IN (IF M % 2 = 0 THEN d ELSE -d) + 8 * 2^M
(* a tie goes to the upper class; here there are none, by oddness *)
Nearest(M, len) == Clamp((T36(M, len) + 18 * 2^M) \div (36 * 2^M), -3, 3)
ClassOK == \A M \in 1..16 : \A len \in 0..M : LcClass(M, len) = Nearest(M, len)
ASSUME ClassOK
ASSUME \A M \in 3..16 : \A len \in 0..M : (T36(M, len) + 18 * 2^M) % (36 * 2^M) # 0
=============================================================================
