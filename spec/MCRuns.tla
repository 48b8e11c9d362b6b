------------------------------- MODULE MCRuns -------------------------------
EXTENDS Emit
CONSTANTS MaxN, EmitN
VARIABLES bits, run, long
vars == <<bits, run, long>>

Calls(bs) == <<Call("runs", NoPar), Call("longest_runs", NoPar)>>

Init == bits = << >> /\ run = RunsInit /\ long = LongInit
Next == /\ Len(bits) < MaxN
        /\ \E b \in {0, 1} :
             bits' = Append(bits, b) /\ run' = RunsStep(run, b) /\ long' = LongStep(long, b)
        /\ IF Len(bits') <= EmitN THEN EmitCalls(bits', Calls(bits')) ELSE TRUE
Spec == Init /\ [][Next]_vars

RunsOK == run.n = Len(bits) /\ run.heads = Ones(bits) /\ run.runs = NRuns(bits)
RunsSymmetric == NRuns(Complement(bits)) = run.runs /\ NRuns(Reverse(bits)) = run.runs
LongOK == long.best = LongestDecl(bits)
LongSymmetric == Longest(Reverse(bits)) = long.best
Covered == bits # << >> =>
             /\ long.best + Longest(Complement(bits)) <= Len(bits)
             /\ long.best * run.runs >= run.heads
=============================================================================
