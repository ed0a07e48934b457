------------------------------ MODULE MCSparse ------------------------------
(* How sparse matrices are put together, as small machines: the merge of the  *)
(* rows of two matrices (sum, difference, elementwise product), and the       *)
(* insertion of coordinates in any order.  TLC runs them on all matrices of   *)
(* the given size and on all lists of coordinates.                            *)
EXTENDS Sparse
CONSTANTS R, C, Signed, MaxTrip, Ops
Vals == IF Signed THEN {-1, 0, 1} ELSE {0, 1}

Mats == {[c |-> FALSE, d |-> <<R, C>>, e |-> [k \in 1..(R * C) |-> <<f[k], 0>>]] : f \in [1..(R * C) -> Vals]}
Pos == (0..(R - 1)) \X (0..(C - 1))

VARIABLES mode, op, a, b, row, p, q, out, todo
vars == <<mode, op, a, b, row, p, q, out, todo>>
Empty == [c |-> FALSE, d |-> <<R, C>>, rs |-> <<0>>, cl |-> <<>>, e |-> <<>>]
None == [c |-> FALSE, d |-> <<0, 0>>, e |-> <<>>]

InitMerge == /\ mode = "merge" /\ op \in Ops
             /\ \E x \in Mats, y \in Mats : a = x /\ b = y
             /\ row = 0 /\ p = 1 /\ q = 1 /\ out = Empty /\ todo = <<>>
InitTrip == /\ mode = "trip" /\ op = "insert"
            /\ todo \in UNION {[1..n -> Pos \X (Vals \ {0})] : n \in 0..MaxTrip}
            /\ a = None /\ b = None /\ row = 0 /\ p = 1 /\ q = 1
            /\ out = [Empty EXCEPT !.rs = [k \in 1..(R + 1) |-> 0]]
Init == InitMerge \/ InitTrip

A == Compress(a)
B == Compress(b)
ColA == IF p <= A.rs[row + 2] THEN A.cl[p] ELSE C
ColB == IF q <= B.rs[row + 2] THEN B.cl[q] ELSE C
Push(col, v) == IF v = CZero THEN out ELSE [out EXCEPT !.cl = Append(@, col), !.e = Append(@, v)]
Merge ==
  /\ mode = "merge" /\ row < R
  /\ \/ /\ ColA < ColB /\ out' = Push(ColA, Arith(op, A.e[p], CZero)) /\ p' = p + 1 /\ UNCHANGED <<q, row>>
     \/ /\ ColB < ColA /\ out' = Push(ColB, Arith(op, CZero, B.e[q])) /\ q' = q + 1 /\ UNCHANGED <<p, row>>
     \/ /\ ColA = ColB /\ ColA < C /\ out' = Push(ColA, Arith(op, A.e[p], B.e[q])) /\ p' = p + 1 /\ q' = q + 1 /\ UNCHANGED row
     \/ /\ ColA = C /\ ColB = C /\ row' = row + 1 /\ out' = [out EXCEPT !.rs = Append(@, Len(out.cl))] /\ UNCHANGED <<p, q>>
  /\ UNCHANGED <<mode, op, a, b, todo>>

(* one coordinate more: in its place, unless the position has a value         *)
Insert ==
  /\ mode = "trip" /\ p <= Len(todo)
  /\ LET i == todo[p][1][1]
         j == todo[p][1][2]
         before == {k \in (out.rs[i + 1] + 1)..out.rs[i + 2] : out.cl[k] < j}
         at == out.rs[i + 1] + Cardinality(before) + 1
     IN IF EntriesAt(out, i, j) # {} THEN UNCHANGED out
        ELSE out' = [out EXCEPT !.cl = SubSeq(@, 1, at - 1) \o <<j>> \o SubSeq(@, at, Len(@)),
                                !.e = SubSeq(@, 1, at - 1) \o <<<<todo[p][2], 0>>>> \o SubSeq(@, at, Len(@)),
                                !.rs = [k \in 1..(R + 1) |-> IF k > i + 1 THEN @[k] + 1 ELSE @[k]]]
  /\ p' = p + 1
  /\ UNCHANGED <<mode, op, a, b, row, q, todo>>
Next == Merge \/ Insert

Done == IF mode = "merge" THEN row = R ELSE p > Len(todo)
Target == IF mode = "merge" THEN Map2(FALSE, a, b, LAMBDA x, y : Arith(op, x, y)) ELSE None
Rows == [k \in 1..Len(todo) |-> todo[k][1][1]]
Cols == [k \in 1..Len(todo) |-> todo[k][1][2]]
Tv == [k \in 1..Len(todo) |-> <<todo[k][2], 0>>]
First(i, j) == LET K == {k \in 1..Len(todo) : Rows[k] = i /\ Cols[k] = j}
               IN IF K = {} THEN CZero ELSE Tv[CHOOSE k \in K : \A m \in K : k <= m]

(* the representation and the matrix determine each other                     *)
RoundTrip == (mode = "merge" /\ row = 0 /\ p = 1 /\ q = 1) => /\ Canonical(A) /\ Full(A) = a
                               /\ Canonical(B) /\ Full(B) = b
Result == Done => /\ Canonical(out)
                  /\ IF mode = "merge" THEN Full(out) = Target /\ out = Compress(Target)
                     ELSE \A x \in Pos : Elem(out, x[1], x[2]) = First(x[1], x[2])
(* canonical all the way while coordinates are inserted                       *)
Always == mode = "trip" => Canonical(out)
=============================================================================
