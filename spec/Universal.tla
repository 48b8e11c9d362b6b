------------------------------ MODULE Universal ------------------------------
(* SP800-22 2.9: Maurer's "Universal Statistical" Test.                       *)
EXTENDS Num

(* The table of each pattern's last position, as a function on the patterns   *)
(* seen so far; a pattern never seen counts as seen at position 0.            *)
TabInit == [pos |-> 0, tab |-> << >>, dist |-> << >>]
Last0(tab, w) == IF w \in DOMAIN tab THEN tab[w] ELSE 0
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f
(* a block of the initialisation segment *)
TabLearn(s, w) == [s EXCEPT !.pos = @ + 1, !.tab = Put(s.tab, w, s.pos + 1)]
(* a block of the test segment: dist counts the distances *)
TabMeasure(s, w) ==
    LET d == s.pos + 1 - Last0(s.tab, w)
    IN [pos |-> s.pos + 1, tab |-> Put(s.tab, w, s.pos + 1),
        dist |-> Put(s.dist, d, 1 + Last0(s.dist, d))]
TabStep(Q, s, w) == IF s.pos < Q THEN TabLearn(s, w) ELSE TabMeasure(s, w)

(* declarative *)
DistDecl(ws, i) == i - Max({0} \cup {j \in 1..(i - 1) : ws[j] = ws[i]})

(* Table 2-9 (Handbook of Applied Cryptography, p. 184): mean, variance *)
Dists == << <<"0.7326495", "0.690">>, <<"1.5374383", "1.338">>, <<"2.4016068", "1.901">>,
            <<"3.3112247", "2.358">>, <<"4.2534266", "2.705">>, <<"5.2177052", "2.954">>,
            <<"6.1962507", "3.125">>, <<"7.1836656", "3.238">>, <<"8.1764248", "3.311">>,
            <<"9.1723243", "3.356">>, <<"10.170032", "3.384">>, <<"11.168765", "3.401">>,
            <<"12.168070", "3.410">>, <<"13.167693", "3.416">>, <<"14.167488", "3.419">>,
            <<"15.167379", "3.421">> >>

(* 2.9.7: n -> L, Q *)
UniTable == << <<387840, 6, 640>>, <<904960, 7, 1280>>, <<2068480, 8, 2560>>,
               <<4654080, 9, 5120>>, <<10342400, 10, 10240>>, <<22753280, 11, 20480>>,
               <<49643520, 12, 40960>>, <<107560960, 13, 81920>>, <<231669760, 14, 163840>>,
               <<496435200, 15, 327680>>, <<1059061760, 16, 655360>> >>
UniRow(n) == Max({0} \cup {i \in DOMAIN UniTable : n >= UniTable[i][1]})
UniL(n) == IF UniRow(n) > 0 THEN UniTable[UniRow(n)][2] ELSE Clamp(CeilLn(n), 2, 16)
UniQ(n, L) == IF UniRow(n) > 0 THEN UniTable[UniRow(n)][3] ELSE MaxI((n \div L) \div 100, 1)

UniRecs(n, L, Q) ==
    << <<"n >= 387840", B3(n >= 387840)>>,
       <<"6 <= blocksize <= 16", B3(L \in 6..16)>>,
       <<"init_nblocks ~ 10 * 2 ** blocksize", B3(Abs(Q - 10 * 2^L) <= 5)>>,
       <<"segment_nblocks ~ floor(n / blocksize) - init_nblocks", "T">> >>

(* ws: the values of the blocks of L bits *)
Universal(ws, n, L, Q) ==
    LET K == n \div L - Q
        s == FoldLeft(LAMBDA a, w : TabStep(Q, a, w), TabInit, ws)
        ds == SetToSeq(DOMAIN s.dist)
        sum == TAdd([i \in 1..Len(ds) |-> TMul(TI(s.dist[ds[i]]), TLog2(TI(ds[i])))])
        stat == TDiv(sum, TI(K))
        mean == TD(Dists[L][1])
        var == TD(Dists[L][2])
    IN [obs |-> [blocksize |-> L, init_nblocks |-> Q, segment_nblocks |-> K],
        stat |-> stat,
        p |-> TErfc(TDiv(TAbs(TSub(TStat, mean)), TSqrt(TMul(TI(2), var)))),
        reals |-> [mean_expect |-> mean, variance |-> var],
        recs |-> UniRecs(n, L, Q)]
=============================================================================
