-------------------------------- MODULE Rank --------------------------------
(* SP800-22 2.5: Binary Matrix Rank. A row is the set of its columns with 1. *)
EXTENDS Num

(* One elimination step: reduce a row by the basis (a function from pivot   *)
(* columns to rows whose least column is the pivot), and keep what is left. *)
Reduce(basis, row, ncols) ==
    FoldLeft(LAMBDA r, c : IF c \in r /\ c \in DOMAIN basis THEN Xor(r, basis[c]) ELSE r,
             row, [c \in 1..ncols |-> c])
RankInit == << >>
RankStep(ncols, basis, row) ==
    LET r == Reduce(basis, row, ncols)
    IN IF r = {} THEN basis ELSE (Min(r) :> r) @@ basis
RankOf(basis) == Cardinality(DOMAIN basis)

RowSet(bits) == {c \in 1..Len(bits) : bits[c] = 1}
MatrixRank(rows, ncols) ==
    RankOf(FoldLeft(LAMBDA B, r : RankStep(ncols, B, r), RankInit, rows))
(* of nrows * ncols bits, row by row *)
BitsRank(bits, nrows, ncols) ==
    MatrixRank([i \in 1..nrows |-> RowSet(SubSeq(bits, (i - 1) * ncols + 1, i * ncols))], ncols)

(* declarative: the row space has 2^rank elements *)
RowSpace(rows) == { FoldLeft(LAMBDA v, i : IF i \in S THEN Xor(v, rows[i]) ELSE v, {},
                             [i \in 1..Len(rows) |-> i]) : S \in SUBSET (1..Len(rows)) }
RankDecl(rows) == CHOOSE k \in 0..Len(rows) : 2^k = Cardinality(RowSpace(rows))

MatrixDefaults(n) ==
    IF n \div 1024 > 38 THEN <<32, 32>>
    ELSE LET d == ISqrt(MaxI(n \div 38, 4)) IN <<d, d>>

RankRecs(n, size) == << <<"n >= 152", B3(n >= 152)>>,
                        <<"n >= 38 * blocksize", B3(n >= 38 * size)>> >>

RankTest(bits, Q, M) ==
    LET n == Len(bits)
        N == n \div (Q * M)
        blk == Blocks(bits, Q * M)
        full == MinI(Q, M)
        classes == [j \in 1..N |->
                      LET r == BitsRank(blk[j], Q, M)
                      IN IF r = full THEN 2 ELSE IF r = full - 1 THEN 1 ELSE 0]
        tally == Tally(classes, 2)
        stat == ChiStat(tally, Scaled(<<"0.1336", "0.5776", "0.2888">>, N))
    IN [obs |-> [nrows |-> Q, ncols |-> M, fullrank |-> full, rankcounts |-> tally],
        stat |-> stat, p |-> ChiP(2),
        recs |-> RankRecs(n, Q * M)]
=============================================================================
