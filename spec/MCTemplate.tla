----------------------------- MODULE MCTemplate -----------------------------
EXTENDS Emit
CONSTANTS MaxN, EmitN, Kind
VARIABLES bits, over
vars == <<bits, over>>

Sizes == 1..4
Windowed(mm) == {mm} \cap 1..Len(bits)

NonCalls(bs) ==
    <<Call("non_overlapping_template_matching", NoPar)>> \o
    SetToSeq({Call("non_overlapping_template_matching", [template_size |-> p[1], blocksize |-> p[2]]) :
              p \in {q \in (1..3) \X (1..Len(bs)) : q[1] <= q[2]}})
OverCalls(bs) ==
    <<Call("overlapping_template_matching", NoPar)>> \o
    SetToSeq({Call("overlapping_template_matching",
                   [template_size |-> p[1], blocksize |-> p[2], matches_ceil |-> p[3]]) :
              p \in {q \in (1..3) \X (1..Len(bs)) \X {1, 2, 5} : q[1] <= q[2]}})
Calls(bs) == IF Kind = "non" THEN NonCalls(bs) ELSE OverCalls(bs)

Init == bits = << >> /\ over = [m \in Sizes |-> OverInit]
Next == /\ Len(bits) < MaxN
        /\ \E b \in {0, 1} :
             /\ bits' = Append(bits, b)
             /\ over' = TLCEval([m \in Sizes |-> OverStep(m, over[m], b)])
        /\ IF Len(bits') <= EmitN THEN EmitCalls(bits', Calls(bits')) ELSE TRUE
Spec == Init /\ [][Next]_vars

(* the greedy scan finds as many disjoint matches as there can be *)
NonOK == \A m \in 1..3 : m <= Len(bits) =>
            LET f == Matches(bits, m) IN
            \A t \in 0..(2^m - 1) : f[t] = MaxDisjoint(bits, m, t)
(* aperiodic templates never overlap themselves *)
Aperiodic(m, t) == \A k \in 1..(m - 1) : t \div 2^k # t % 2^(m - k)
AperiodicOK == \A m \in 1..3 : m <= Len(bits) =>
            \A t \in 0..(2^m - 1) : Aperiodic(m, t) =>
               Matches(bits, m)[t] = Cardinality(Occurrences(bits, m, t))
OverOK == \A m \in Sizes : m <= Len(bits) => over[m].matches = AllHeadsDecl(bits, m)
(* overlapping matches are at least the non-overlapping ones *)
Compare == \A m \in 1..3 : m <= Len(bits) => over[m].matches >= Matches(bits, m)[2^m - 1]
=============================================================================
