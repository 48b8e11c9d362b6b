----------------------------- MODULE Containers -----------------------------
(* The public containers as state machines. An operation is a record with a     *)
(* field op; the machines give the next state and the result, which is a pair   *)
(* of a tag ("v" value, "s" sequence, "ok", or "e:" an error) and a sequence.   *)
EXTENDS Num

Value1(x) == <<"v", <<x>> >>
SeqResult(s) == <<"s", s>>
OK == <<"ok", << >> >>
Error(name) == <<"e:" \o name, << >> >>
Step(st, res) == [st |-> st, res |-> res]

-----------------------------------------------------------------------------
(* Bins: a function from intervals to values. Reals are in units of 1/4.        *)
BinsInit(intervals) == [k \in intervals |-> 0]
Sorted(S) == SetToSortSeq(S, <)
Nearest(D, k) ==
    CHOOSE d \in D : /\ \A e \in D : Abs(d - k) <= Abs(e - k)
                     /\ \A e \in D : Abs(d - k) = Abs(e - k) => e <= d
BinsDel(m, k) ==
    LET D == DOMAIN m \ {k}
        rest == [d \in D |-> m[d]]
    IN IF D = {} THEN rest ELSE [rest EXCEPT ![Nearest(D, k)] = @ + m[k]]
ItemsOf(m) == LET D == DOMAIN m IN [i \in 1..Cardinality(D) |-> <<Sorted(D)[i], m[Sorted(D)[i]]>>]
(* the results of ==, != and == with the operands exchanged *)
EqResult(b) == SeqResult(IF b THEN <<1, 0, 1>> ELSE <<0, 1, 0>>)
BinsOp(m, o) ==
    LET D == DOMAIN m IN
    CASE o.op \in {"get", "set", "add"} /\ D = {} -> Step(m, Error("KeyError"))
      [] o.op = "get" -> Step(m, Value1(m[Nearest(D, o.k)]))
      [] o.op = "set" -> Step([m EXCEPT ![Nearest(D, o.k)] = o.v], OK)
      [] o.op = "add" -> Step([m EXCEPT ![Nearest(D, o.k)] = @ + o.v], OK)
      [] o.op = "del" -> IF o.k \in D THEN Step(BinsDel(m, o.k), OK)
                         ELSE Step(m, Error("KeyError"))
      [] o.op = "len" -> Step(m, Value1(Cardinality(D)))
      [] o.op = "keys" -> Step(m, SeqResult(Sorted(D)))
      [] o.op = "intervals" -> Step(m, SeqResult(Sorted(D)))
      [] o.op = "values" -> Step(m, SeqResult([i \in 1..Cardinality(D) |-> m[Sorted(D)[i]]]))
      [] o.op = "items" -> Step(m, SeqResult(ItemsOf(m)))
      [] o.op = "contains" -> Step(m, Value1(IF D = {} THEN 0 ELSE 1))   \* as a read
      [] o.op = "getd" -> Step(m, Value1(IF D = {} THEN o.v ELSE m[Nearest(D, o.k)]))
      [] o.op = "setdef" -> IF D = {} THEN Step(m, Error("KeyError")) ELSE Step(m, Value1(m[Nearest(D, o.k)]))
      [] o.op = "pop" -> IF o.k \in D THEN Step(BinsDel(m, o.k), Value1(m[o.k]))
                         ELSE Step(m, Error("KeyError"))
      [] o.op = "popitem" -> IF D = {} THEN Step(m, Error("KeyError"))
                             ELSE Step(BinsDel(m, Min(D)), SeqResult(<<Min(D), m[Min(D)]>>))
      [] o.op = "clear" -> Step([k \in {} |-> 0], OK)
      [] o.op = "update" -> \* o.kv: the keys and values to write, in turn
           IF D = {} /\ o.kv # << >> THEN Step(m, Error("KeyError"))
           ELSE Step(FoldLeft(LAMBDA f, kv : [f EXCEPT ![Nearest(D, kv[1])] = kv[2]], m, o.kv), OK)
      [] o.op = "copy" -> Step(m, OK)   \* goes on with a copy
      [] o.op = "eq" -> Step(m, EqResult(ItemsOf(m) = o.kv))
      [] o.op = "total" -> Step(m, Value1(SumSeq([i \in 1..Cardinality(D) |-> m[Sorted(D)[i]]])))

-----------------------------------------------------------------------------
(* FloorDict: a function; lookups leave it as it is. *)
FloorOp(m, o) ==
    LET D == DOMAIN m
        below == {d \in D : d <= o.k}
    IN CASE o.op = "get" -> Step(m, IF below = {} THEN Error("KeyError") ELSE Value1(m[Max(below)]))
         [] o.op = "len" -> Step(m, Value1(Cardinality(D)))
         [] o.op = "keys" -> Step(m, SeqResult(Sorted(D)))
         [] o.op = "values" -> Step(m, SeqResult([i \in 1..Cardinality(D) |-> m[Sorted(D)[i]]]))
         [] o.op = "items" -> Step(m, SeqResult(ItemsOf(m)))
         [] o.op = "contains" -> Step(m, Value1(IF below = {} THEN 0 ELSE 1))   \* as a lookup
         [] o.op = "getd" -> Step(m, Value1(IF below = {} THEN o.v ELSE m[Max(below)]))
         [] o.op = "copy" -> Step(m, OK)
         [] o.op = "eq" -> Step(m, EqResult(ItemsOf(m) = o.kv))

-----------------------------------------------------------------------------
(* defaultlist: a sequence s, with the value d for the elements which nothing   *)
(* was written to. An index or a bound which is not given is 999.               *)
NoneIx == 999
Pad(s, d, n) == IF n <= Len(s) THEN s ELSE s \o [i \in 1..(n - Len(s)) |-> d]
Resolves(s, i) == i >= -Len(s)
Ix(s, i) == IF i >= 0 THEN i ELSE Len(s) + i

(* the indices of a slice, in order *)
StepOf(o) == IF o.step \in {NoneIx, 0} THEN 1 ELSE o.step
StartOf(s, o) == IF o.a = NoneIx THEN (IF StepOf(o) > 0 THEN 0 ELSE Len(s) - 1) ELSE Ix(s, o.a)
StopOf(s, o) == IF o.b = NoneIx THEN (IF StepOf(o) > 0 THEN Len(s) ELSE -1) ELSE Ix(s, o.b)
Bounds(s, o) == (o.a = NoneIx \/ Resolves(s, o.a)) /\ (o.b = NoneIx \/ Resolves(s, o.b))
IxRange(a, b, k) ==
    IF k > 0 THEN IF a >= b THEN << >> ELSE [i \in 1..CeilDiv(b - a, k) |-> a + (i - 1) * k]
    ELSE IF a <= b THEN << >> ELSE [i \in 1..CeilDiv(a - b, -k) |-> a + (i - 1) * k]
SliceIx(s, o) == IxRange(StartOf(s, o), StopOf(s, o), StepOf(o))
Reach(ix) == IF ix = << >> THEN 0 ELSE 1 + MaxSeq(ix)

RemoveAll(s, R) == LET keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : (i - 1) \notin R)
                   IN [j \in 1..Len(keep) |-> s[keep[j]]]
(* s without the elements of R, and vs put before the element which is then at a *)
Splice(s, d, a, R, vs) ==
    LET r == RemoveAll(s, R)
        p == IF vs = << >> THEN r ELSE Pad(r, d, a)
    IN IF vs = << >> THEN r ELSE SubSeq(p, 1, a) \o vs \o SubSeq(p, a + 1, Len(p))
PutAt(s, d, i, v) ==
    LET a == IF i >= 0 THEN i ELSE MaxI(Len(s) + i, 0)
        p == Pad(s, d, a)
    IN SubSeq(p, 1, a) \o <<v>> \o SubSeq(p, a + 1, Len(p))
IndexOf(s, v) == IF \E i \in 1..Len(s) : s[i] = v
                 THEN (CHOOSE i \in 1..Len(s) : s[i] = v /\ \A j \in 1..(i - 1) : s[j] # v) - 1
                 ELSE -1
Write(s, ix, vs) == FoldLeft(LAMBDA t, j : [t EXCEPT ![ix[j] + 1] = vs[j]], s,
                             [j \in 1..Len(ix) |-> j])

ListOp(s, d, o) ==
    CASE o.op = "get" ->
           IF ~Resolves(s, o.i) THEN Step(s, Error("IndexError"))
           ELSE LET t == Pad(s, d, Ix(s, o.i) + 1) IN Step(t, Value1(t[Ix(s, o.i) + 1]))
      [] o.op = "set" ->
           IF ~Resolves(s, o.i) THEN Step(s, Error("IndexError"))
           ELSE Step([Pad(s, d, Ix(s, o.i) + 1) EXCEPT ![Ix(s, o.i) + 1] = o.v], OK)
      [] o.op = "push" ->   \* elements are sequences: appends to the one at i
           IF ~Resolves(s, o.i) THEN Step(s, Error("IndexError"))
           ELSE Step([Pad(s, d, Ix(s, o.i) + 1) EXCEPT ![Ix(s, o.i) + 1] = Append(@, o.v)], OK)
      [] o.op = "del" ->
           IF ~Resolves(s, o.i) THEN Step(s, Error("IndexError"))
           ELSE Step(RemoveAll(s, {Ix(s, o.i)}), OK)
      [] o.op \in {"getslice", "setslice", "delslice", "slicemut"} /\ ~Bounds(s, o) ->
           Step(s, Error("IndexError"))
      [] o.op = "getslice" ->
           LET ix == SliceIx(s, o)
               t == Pad(s, d, Reach(ix))
           IN Step(t, SeqResult([j \in 1..Len(ix) |-> t[ix[j] + 1]]))
      [] o.op = "slicemut" ->   \* changing the slice changes nothing else
           Step(Pad(s, d, Reach(SliceIx(s, o))), OK)
      [] o.op = "setslice" ->
           LET ix == SliceIx(s, o) IN
           IF StepOf(o) = 1 THEN Step(Splice(s, d, StartOf(s, o), ToSet(ix), o.vs), OK)
           ELSE IF Len(ix) # Len(o.vs) THEN Step(s, Error("ValueError"))
           ELSE Step(Write(Pad(s, d, Reach(ix)), ix, o.vs), OK)
      [] o.op = "delslice" -> Step(RemoveAll(s, ToSet(SliceIx(s, o))), OK)
      [] o.op = "insert" -> Step(PutAt(s, d, o.i, o.v), OK)
      [] o.op = "append" -> Step(Append(s, o.v), OK)
      [] o.op = "extend" -> Step(s \o o.vs, OK)
      [] o.op = "pop" ->
           LET i == IF o.i = NoneIx THEN -1 ELSE o.i IN
           IF ~Resolves(s, i) THEN Step(s, Error("IndexError"))
           ELSE LET t == Pad(s, d, Ix(s, i) + 1)
                IN Step(RemoveAll(t, {Ix(s, i)}), Value1(t[Ix(s, i) + 1]))
      [] o.op = "remove" ->
           IF IndexOf(s, o.v) < 0 THEN Step(s, Error("ValueError"))
           ELSE Step(RemoveAll(s, {IndexOf(s, o.v)}), OK)
      [] o.op = "index" -> Step(s, IF IndexOf(s, o.v) < 0 THEN Error("ValueError")
                                   ELSE Value1(IndexOf(s, o.v)))
      [] o.op = "count" -> Step(s, Value1(Len(SelectSeq(s, LAMBDA x : x = o.v))))
      [] o.op = "contains" -> Step(s, Value1(IF IndexOf(s, o.v) < 0 THEN 0 ELSE 1))
      [] o.op = "reverse" -> Step(Reverse(s), OK)
      [] o.op = "clear" -> Step(<< >>, OK)
      [] o.op = "len" -> Step(s, Value1(Len(s)))
      [] o.op = "all" -> Step(s, SeqResult(s))
      [] o.op = "reversed" -> Step(s, SeqResult(Reverse(s)))
      [] o.op = "eq" -> Step(s, EqResult(o.seq /\ Len(s) = Len(o.vs)
                                            /\ \A i \in 1..Len(s) : s[i] = o.vs[i]))
      [] o.op = "repr" -> Step(s, SeqResult(s))
      [] o.op = "copy" -> Step(s, OK)
      [] o.op = "badkey" -> Step(s, Error("TypeError"))
      [] o.op = "extendself" -> Step(s \o s, OK)
      [] o.op = "setself" ->   \* s[i:i] = s
           IF ~Resolves(s, o.i) THEN Step(s, Error("IndexError"))
           ELSE Step(Splice(s, d, Ix(s, o.i), {}, s), OK)
      [] o.op = "slicegrow" /\ ~Bounds(s, o) -> Step(s, Error("IndexError"))
      [] o.op = "slicegrow" ->   \* what a slice reads at j: it is such a list itself
           LET ix == SliceIx(s, o)
               t == Pad(s, d, Reach(ix))
           IN Step(t, Value1(IF o.i < Len(ix) THEN t[ix[o.i + 1] + 1] ELSE d))
=============================================================================
