------------------------------ MODULE MCParse ------------------------------
(* All short files: of MaxBytes bytes out of Bytes, and of MaxLines lines.       *)
EXTENDS Parse, Json, CSV, IOUtils
CONSTANTS MaxBytes, MaxLines
Bytes == {0, 1, 2, 3, 64, 127, 128, 129, 165, 254, 255}
VARIABLES kind, f
vars == <<kind, f>>
Init == kind \in {"bytes", "text"} /\ f = << >>
Next == /\ UNCHANGED kind
        /\ \/ kind = "bytes" /\ Len(f) < MaxBytes /\ \E b \in Bytes : f' = Append(f, b)
           \/ kind = "bytes" /\ f = << >> /\ \E b \in 0..255 : f' = <<b>>
           \/ kind = "text" /\ Len(f) < MaxLines /\ \E v \in 0..2 : f' = Append(f, v)
        /\ CSVWrite("%1$s", <<ToJson([kind |-> kind, f |-> f])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars
ValueOfBits(s) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, s)
(* the bits of the bytes are their values in base 2, in order *)
BytesOK == kind = "bytes" =>
    LET s == BitsOfBytes(f) IN
    /\ Len(s) = 8 * Len(f)
    /\ \A i \in 1..Len(f) : ValueOfBits(SubSeq(s, 8 * i - 7, 8 * i)) = f[i]
LinesOK == kind = "text" =>
    LET s == ValuesOfLines(f) IN
    /\ \A v \in 1..2 : Cardinality({i \in 1..Len(s) : s[i] = v}) = Cardinality({i \in 1..Len(f) : f[i] = v})
    /\ MergeRuns([i \in 1..Len(f) |-> <<f[i], 1>>]) = MergeRuns([i \in 1..Len(s) |-> <<s[i], 1>>])
    /\ Unroll(MergeRuns([i \in 1..Len(f) |-> <<f[i], 1>>])) = s
GrowOK == [][kind = "text" => IsPrefix(ValuesOfLines(f), ValuesOfLines(f'))]_vars
=============================================================================
