------------------------------- MODULE MCFreq -------------------------------
(* Every sequence of up to MaxN bits, fed bit by bit to the automata of the    *)
(* frequency tests; calls on those of up to EmitN bits are written out.        *)
EXTENDS Emit
CONSTANTS MaxN, EmitN
VARIABLES bits, mono, bf
vars == <<bits, mono, bf>>

Sizes == 1..4
Calls(bs) == <<Call("monobit", NoPar), Call("frequency_within_block", NoPar)>>
             \o [M \in 1..Len(bs) |-> Call("frequency_within_block", [blocksize |-> M])]

Init == bits = << >> /\ mono = MonobitInit /\ bf = [M \in Sizes |-> BlockFreqInit]
Next == /\ Len(bits) < MaxN
        /\ \E b \in {0, 1} :
             /\ bits' = Append(bits, b)
             /\ mono' = MonobitStep(mono, b)
             /\ bf' = TLCEval([M \in Sizes |-> BlockFreqStep(M, bf[M], b)])
        /\ IF Len(bits') <= EmitN THEN EmitCalls(bits', Calls(bits')) ELSE TRUE
Spec == Init /\ [][Next]_vars

Heads == Cardinality({i \in 1..Len(bits) : bits[i] = 1})
MonobitOK == mono.n = Len(bits) /\ mono.heads = Heads
Symmetric == MonobitFin(mono).obs.diff = Monobit(Complement(bits)).obs.diff
BlockOK == \A M \in Sizes :
    /\ bf[M].counts = BlockCounts(bits, M)
    /\ Len(bf[M].counts) = Len(bits) \div M
    /\ bf[M].fill = Len(bits) % M
BlockOrder == \A M \in Sizes : SumSeq(bf[M].counts) + bf[M].cur = mono.heads
=============================================================================
