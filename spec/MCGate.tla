------------------------------- MODULE MCGate -------------------------------
(* Every sequence of up to MaxN values of an alphabet of 3, where M stands for  *)
(* a missing one, through the gate of every test.                               *)
EXTENDS Gate, Json, CSV, IOUtils
CONSTANTS MaxN, EmitN
VARIABLES seq, seen, missing
vars == <<seq, seen, missing>>
Alphabet == 0..3      \* 3: a missing value
Init == seq = << >> /\ seen = {} /\ missing = FALSE
Next == /\ Len(seq) < MaxN
        /\ \E v \in Alphabet :
             /\ seq' = Append(seq, v)
             /\ seen' = IF v = 3 THEN seen ELSE seen \cup {v}
             /\ missing' = (missing \/ v = 3)
        /\ IF Len(seq') <= EmitN
           THEN CSVWrite("%1$s", <<ToJson([s |-> seq'])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars

Out(test) == GateOutcome(test, Cardinality(seen), missing, Len(seq),
                         Cardinality(ToSet(SubSeq(seq, 1, Len(seq) - 1))) = 1)
(* on sequences of bits, the gate is that of the battery *)
Agrees == ~missing /\ seen \subseteq {0, 1} =>
    \A i \in DOMAIN Tests :
        Out(Tests[i]) = Outcome(Tests[i], [k |-> "raw", b |-> seq], << >>)
(* what is binary stays so when it grows by the same values; missing values persist *)
Monotone == [][ (missing => missing') /\ seen \subseteq seen' ]_vars
Nested == \A i \in DOMAIN Tests : Out(Tests[i]) # "nonbinary" => Out("monobit") # "nonbinary"
=============================================================================
