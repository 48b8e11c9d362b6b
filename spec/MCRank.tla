------------------------------- MODULE MCRank -------------------------------
(* Every matrix of up to MaxRows x MaxCols over GF(2), row by row.             *)
EXTENDS Emit
CONSTANTS MaxRows, MaxCols, MaxN, EmitN
VARIABLES rows, ncols, basis
vars == <<rows, ncols, basis>>

Flat(rs, nc) == FlattenSeq([i \in 1..Len(rs) |-> [c \in 1..nc |-> IF c \in rs[i] THEN 1 ELSE 0]])
Dims(n) == {<<q, m>> \in (1..5) \X (1..5) : q * m <= n}
Calls(bs) == <<Call("binary_matrix_rank", NoPar)>> \o
             SetToSeq({Call("binary_matrix_rank", [nrows |-> d[1], ncols |-> d[2]]) :
                         d \in Dims(Len(bs))})

Init == rows = << >> /\ ncols \in 1..MaxCols /\ basis = RankInit
Next == /\ Len(rows) < MaxRows
        /\ (Len(rows) + 1) * ncols <= MaxN
        /\ \E r \in SUBSET (1..ncols) :
             /\ rows' = Append(rows, r)
             /\ basis' = RankStep(ncols, basis, r)
        /\ UNCHANGED ncols
        /\ LET bs == Flat(rows', ncols) IN
           IF Len(bs) <= EmitN
           THEN EmitLine([b |-> bs, nrows |-> Len(rows'), ncols |-> ncols,
                          rank |-> RankOf(basis'),
                          c |-> IF ncols = 1 THEN Calls(bs) ELSE << >>])
           ELSE TRUE
Spec == Init /\ [][Next]_vars

Transpose(rs, nc) == [c \in 1..nc |-> {i \in 1..Len(rs) : c \in rs[i]}]
RankOK == RankOf(basis) = RankDecl(rows)
TransposeOK == RankOf(basis) = MatrixRank(Transpose(rows, ncols), Len(rows))
BasisOK == \A p \in DOMAIN basis : Min(basis[p]) = p
Bounded == RankOf(basis) <= MinI(Len(rows), ncols)
BitsOK == BitsRank(Flat(rows, ncols), Len(rows), ncols) = RankOf(basis)
=============================================================================
