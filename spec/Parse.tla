------------------------------- MODULE Parse -------------------------------
(* How data files are read.                                                     *)
EXTENDS Num
BitsOfByte(b) == [i \in 1..8 |-> (b \div 2 ^ (8 - i)) % 2]
(* raw binary files: from the most significant bit of the first byte *)
BitsOfBytes(bs) == FlattenSeq([i \in 1..Len(bs) |-> BitsOfByte(bs[i])])
(* text files: lines are numbered values, or 0 if blank *)
ValuesOfLines(ls) == SelectSeq(ls, LAMBDA x : x # 0)
(* lines in runs of [value, how many times] *)
Unroll(runs) == FoldLeft(LAMBDA s, r : s \o [i \in 1..r[2] |-> r[1]], << >>, runs)
MergeRuns(runs) ==
    FoldLeft(LAMBDA s, r : IF r[1] = 0 \/ r[2] = 0 THEN s
                           ELSE IF s # << >> /\ s[Len(s)][1] = r[1]
                           THEN [s EXCEPT ![Len(s)][2] = @ + r[2]] ELSE Append(s, r), << >>, runs)
Binary(s) == Cardinality(ToSet(s)) = 2
=============================================================================
