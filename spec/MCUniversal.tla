----------------------------- MODULE MCUniversal -----------------------------
(* Every sequence of up to MaxW blocks of L bits, for every initialisation      *)
(* segment Q.                                                                   *)
EXTENDS Emit
CONSTANTS MaxW, MaxL, EmitN
VARIABLES ws, L, Q, s
vars == <<ws, L, Q, s>>

BitsOf(w, k) == [i \in 1..k |-> (w \div 2^(k - i)) % 2]
Flat(seq, k) == FlattenSeq([i \in 1..Len(seq) |-> BitsOf(seq[i], k)])
Init == ws = << >> /\ L \in 1..MaxL /\ Q \in 1..3 /\ s = TabInit
Next == /\ Len(ws) < MaxW
        /\ \E w \in 0..(2^L - 1) : ws' = Append(ws, w) /\ s' = TabStep(Q, s, w)
        /\ UNCHANGED <<L, Q>>
        /\ LET bs == Flat(ws', L) IN
           IF Len(bs) <= EmitN /\ Len(ws') > Q
           THEN EmitCalls(bs, <<Call("maurers_universal", [blocksize |-> L, init_nblocks |-> Q])>>
                              \o (IF Q = 1 THEN <<Call("maurers_universal", [blocksize |-> L])>>
                                  ELSE << >>)
                              \o (IF L = 1 /\ Len(bs) >= 4
                                  THEN <<Call("maurers_universal", NoPar)>> ELSE << >>))
           ELSE TRUE
Spec == Init /\ [][Next]_vars

Measured == (Q + 1)..Len(ws)
TableOK == \A w \in 0..(2^L - 1) :
             Last0(s.tab, w) = Max({0} \cup {i \in 1..Len(ws) : ws[i] = w})
DistOK == \A d \in 1..Len(ws) :
             Last0(s.dist, d) = Cardinality({i \in Measured : DistDecl(ws, i) = d})
TotalOK == SumSeq([d \in 1..Len(ws) |-> Last0(s.dist, d)]) = Cardinality(Measured)
ValuesOK == [i \in 1..Len(ws) |-> Value(SubSeq(Flat(ws, L), (i - 1) * L + 1, i * L))] = ws
=============================================================================
