------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices in compressed-row form:                                   *)
(*   [c |-> complex?, d |-> <<rows, columns>>, rs |-> start of each row,     *)
(*    cl |-> column of each stored entry, e |-> its value]                   *)
(* and the matrix Full(s) they stand for.  No algorithm of the library       *)
(* appears here: a representation is judged by Canonical(s) and Full(s).     *)
EXTENDS TensorAlgebra

Canonical(s) ==
  /\ Len(s.d) = 2 /\ s.d[1] >= 0 /\ s.d[2] >= 0
  /\ Len(s.rs) = s.d[1] + 1
  /\ s.rs[1] = 0
  /\ \A r \in 1..s.d[1] : s.rs[r] <= s.rs[r + 1]
  /\ s.rs[s.d[1] + 1] = Len(s.cl)
  /\ Len(s.e) = Len(s.cl)
  /\ \A k \in 1..Len(s.cl) : s.cl[k] >= 0 /\ s.cl[k] < s.d[2]
  /\ \A r \in 1..s.d[1] : \A k \in (s.rs[r] + 1)..(s.rs[r + 1] - 1) : s.cl[k] < s.cl[k + 1]
  /\ (~s.c => \A k \in 1..Len(s.e) : s.e[k][2] = 0)

(* what the constructor from compressed rows takes: rows within the stored    *)
(* entries, columns within the matrix (the order is up to the caller)         *)
Consistent(s) ==
  /\ Len(s.d) = 2 /\ s.d[1] >= 0 /\ s.d[2] >= 0
  /\ Len(s.rs) = s.d[1] + 1
  /\ s.rs[1] = 0
  /\ \A r \in 1..s.d[1] : s.rs[r] <= s.rs[r + 1]
  /\ s.rs[s.d[1] + 1] <= Len(s.cl)
  /\ Len(s.e) = Len(s.cl)
  /\ \A k \in 1..Len(s.cl) : s.cl[k] >= 0 /\ s.cl[k] < s.d[2]

(* the stored entries of a row (0-based) at a column                          *)
EntriesAt(s, i, j) == {k \in (s.rs[i + 1] + 1)..s.rs[i + 2] : s.cl[k] = j}
Elem(s, i, j) == LET E == EntriesAt(s, i, j)
                 IN IF E = {} THEN CZero ELSE s.e[CHOOSE k \in E : TRUE]
Full(s) == Tab(s.c, s.d, LAMBDA x : Elem(s, x[1], x[2]))

(* the representation of a matrix (without stored zeros): for the model       *)
RECURSIVE RowCols(_, _, _)
RowCols(t, i, j) == IF j >= t.d[2] THEN <<>>
                    ELSE (IF At(t, <<i, j>>) = CZero THEN <<>> ELSE <<j>>) \o RowCols(t, i, j + 1)
RECURSIVE ConcatTo(_, _)
ConcatTo(F, n) == IF n = 0 THEN <<>> ELSE ConcatTo(F, n - 1) \o F[n]
Compress(t) ==
  LET R == [i \in 1..t.d[1] |-> RowCols(t, i - 1, 0)]
      cl == ConcatTo(R, t.d[1])
      rs == [i \in 1..(t.d[1] + 1) |-> SumSeq([k \in 1..(i - 1) |-> Len(R[k])])]
      rowof(k) == CHOOSE i \in 1..t.d[1] : rs[i] < k /\ k <= rs[i + 1]
  IN [c |-> t.c, d |-> t.d, rs |-> rs, cl |-> cl,
      e |-> [k \in 1..Len(cl) |-> At(t, <<rowof(k) - 1, cl[k]>>)]]

(* ------------------------------------------------- from coordinates        *)
(* rows, cols, values x.e; nr, nc: dimensions asked for (0: as needed)        *)
TripOK(ev) == /\ Len(ev.rows) = NElems(ev.x) /\ Len(ev.cols) = NElems(ev.x)
              /\ \A k \in 1..Len(ev.rows) : ev.rows[k] >= 0 /\ ev.cols[k] >= 0
TripDims(rows, cols, nr, nc) ==
  <<FoldLeft(LAMBDA a, b : Max2(a, b + 1), nr, rows), FoldLeft(LAMBDA a, b : Max2(a, b + 1), nc, cols)>>
(* values supplied for a position                                             *)
TripVals(rows, cols, e, i, j) == {e[k] : k \in {k \in 1..Len(rows) : rows[k] = i /\ cols[k] = j}}
TripFits(ev, t) ==
  /\ t.d = TripDims(ev.rows, ev.cols, IF "nr" \in DOMAIN ev THEN ev.nr ELSE 0, IF "nc" \in DOMAIN ev THEN ev.nc ELSE 0)
  /\ t.c = ev.x.c
  /\ \A i \in 0..(t.d[1] - 1) : \A j \in 0..(t.d[2] - 1) :
       LET V == TripVals(ev.rows, ev.cols, ev.x.e, i, j)
       IN IF V = {} THEN At(t, <<i, j>>) = CZero ELSE At(t, <<i, j>>) \in V

(* --------------------------------------------------------------- algebra    *)
RealPart(t) == [c |-> FALSE, d |-> t.d, e |-> [k \in 1..Len(t.e) |-> <<t.e[k][1], 0>>]]
ImagPart(t) == [c |-> FALSE, d |-> t.d, e |-> [k \in 1..Len(t.e) |-> <<t.e[k][2], 0>>]]
SUn(k, t) ==
  CASE k = "neg" -> Map1(t.c, t, CNeg)
    [] k = "transpose" -> Transpose(t)
    [] k = "adjoint" -> Adjoint(t)
    [] k = "conj" -> Conj(t)
    [] k = "real" -> RealPart(t)
    [] k = "imag" -> ImagPart(t)
    [] k = "copy" -> t
SNum(k, nc, t, n) == Map1(t.c \/ nc, t, LAMBDA v : IF k = "/" THEN CDiv(v, n) ELSE CMul(v, n))
ScaleBy(t, c) == Map1(t.c \/ c, t, LAMBDA v : v)
SBinOK(k, a, b) == IF k \in {"+", "-", "*"} THEN a.d = b.d
                   ELSE IF k = "kron2_sum" THEN a.d[1] = a.d[2] /\ b.d[1] = b.d[2] ELSE TRUE
SBin(k, a, b) ==
  CASE k \in {"+", "-", "*"} -> Map2(a.c \/ b.c, a, b, LAMBDA x, y : Arith(k, x, y))
    [] k = "kron" -> Kron(a, b)
    [] k = "kron2" -> Kron2(a, b)
    \* kron2(a, I) + kron2(I, b)
    [] k = "kron2_sum" -> TAdd(Kron2(a, Eye(b.c, b.d[1], b.d[1])), Kron2(Eye(a.c, a.d[1], a.d[1]), b))
=============================================================================
