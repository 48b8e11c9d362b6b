------------------------------- MODULE MCDList -------------------------------
(* Every operation out of a large alphabet, on every list which a short history  *)
(* of simple operations leads to.                                                *)
EXTENDS Containers, Json, CSV, IOUtils
CONSTANTS Builds, MaxI_, Wide
VARIABLES s, hist, phase
vars == <<s, hist, phase>>
D == 0
Ints == (-MaxI_)..MaxI_
Bnds == {NoneIx} \cup ((-MaxI_)..(MaxI_ + 1))
Build == [op : {"set"}, i : {0, 2}, v : {1}] \cup [op : {"append"}, v : {2}]
         \cup [op : {"get"}, i : {3}] \cup [op : {"insert"}, i : {0, 1}, v : {3}]
         \cup [op : {"del"}, i : {0}]
Slices == [a : Bnds, b : Bnds, step : IF Wide THEN {NoneIx, 1, 2, 3, -1, -2} ELSE {NoneIx, 2, -1}]
Merge(r, q) == [f \in DOMAIN r \cup DOMAIN q |-> IF f \in DOMAIN r THEN r[f] ELSE q[f]]
Finals == [op : {"get", "del", "pop"}, i : Ints] \cup [op : {"set", "insert"}, i : Ints, v : {9}]
    \cup {Merge([op |-> x], q) : x \in {"getslice", "delslice"}, q \in Slices}
    \cup {Merge([op |-> "setslice", vs |-> vs], q) :
            vs \in {<< >>, <<8>>, <<8, 9>>} \cup (IF Wide THEN {<<7, 8, 9>>} ELSE {}), q \in Slices}
    \cup [op : {"pop"}, i : {NoneIx}] \cup [op : {"remove", "index", "count", "contains"}, v : {0, 1, 2, 9}]
    \cup [op : {"reverse", "clear", "copy", "repr", "badkey", "extendself"}]
    \cup [op : {"setself"}, i : Ints]
    \cup {Merge([op |-> "slicegrow", i |-> i], q) : i \in {0, 2}, q \in Slices}
(* lists which are alike, to compare with *)
Alike(q) == {q, Append(q, D), Append(q, 5)}
            \cup (IF q = << >> THEN {} ELSE {SubSeq(q, 1, Len(q) - 1), SubSeq(q, 2, Len(q)), Reverse(q)}
                                            \cup {[q EXCEPT ![i] = 6] : i \in 1..Len(q)})
Compares(q) == {[op |-> "eq", vs |-> x, seq |-> TRUE] : x \in Alike(q)}
               \cup {[op |-> "eq", vs |-> q, seq |-> FALSE]}
Init == s = << >> /\ hist = << >> /\ phase = "build"
Next == \/ /\ phase = "build" /\ Len(hist) < Builds
           /\ \E o \in Build : s' = TLCEval(ListOp(s, D, o).st) /\ hist' = Append(hist, o)
           /\ UNCHANGED phase
        \/ /\ phase = "build"
           /\ phase' = "done"
           /\ \E o \in Finals \cup Compares(s) : s' = TLCEval(ListOp(s, D, o).st) /\ hist' = Append(hist, o)
           /\ CSVWrite("%1$s", <<ToJson([ops |-> hist'])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars
(* lists which are equal need not be built twice *)
View == <<s, phase, IF phase = "done" THEN hist[Len(hist)] ELSE [op |-> "none"], Len(hist)>>

Op == hist'[Len(hist')]
R == ListOp(s, D, Op)
LenAfter == Len(s')
Deletes(k) == LenAfter >= Len(s) - k
(* how far each operation may change the length, and what it must leave alone *)
Frame == [][
    /\ Op.op \in {"get", "getslice"} => SubSeq(s', 1, Len(s)) = s
                                      /\ \A i \in (Len(s) + 1)..LenAfter : s'[i] = D
    /\ Op.op = "del" => Deletes(1)
    /\ Op.op = "insert" => LenAfter >= Len(s) + 1 /\ RemoveAll(s', {IF Op.i >= 0 THEN Op.i ELSE MaxI(Len(s) + Op.i, 0)})
                                  = Pad(s, D, IF Op.i >= 0 THEN Op.i ELSE 0)
    /\ Op.op = "set" => \A i \in 1..Len(s) : s'[i] = s[i] \/ (Resolves(s, Op.i) /\ i = Ix(s, Op.i) + 1)
    /\ Op.op = "delslice" => Len(s') = Len(s) - Cardinality({i \in ToSet(SliceIx(s, Op)) : i < Len(s)})
                               \/ ~Bounds(s, Op)
    /\ Op.op \in {"eq", "copy", "repr", "badkey"} => s' = s
    /\ Op.op = "eq" => (R.res[2][1] = 1) = (Op.seq /\ Op.vs = s)
    /\ R.res[1] \in {"e:IndexError", "e:ValueError"} => s' = s
  ]_vars
(* a slice of step 1 is replaced by deleting it and inserting the values one by one *)
SpliceOK == [][ Op.op = "setslice" /\ Bounds(s, Op) /\ StepOf(Op) = 1 =>
    LET a == StartOf(s, Op)
        gone == ListOp(s, D, [op |-> "delslice", a |-> Op.a, b |-> Op.b, step |-> Op.step]).st
    IN s' = FoldLeft(LAMBDA t, j : PutAt(t, D, a + j - 1, Op.vs[j]), gone,
                     [j \in 1..Len(Op.vs) |-> j]) ]_vars
(* deleting a slice deletes its indices, from the greatest down *)
DelOK == [][ Op.op = "delslice" /\ Bounds(s, Op) =>
    s' = FoldLeft(LAMBDA t, i : RemoveAll(t, {i}), s,
                  Reverse(SetToSortSeq(ToSet(SliceIx(s, Op)), <))) ]_vars
=============================================================================
