----------------------------- MODULE TraceWide -----------------------------
(* Sparse matrices with more columns than an int can count (P12, P13).  The    *)
(* dense matrix they stand for does not exist: a matrix is the finite function *)
(* of its entries, and columns are numbers in limbs (Decimal).                 *)
(*   case:    [c, n: rows, m: columns, ent: <<row, column, <<re, im>>>>...]    *)
(*   result:  [c, d: <<rows, columns>>, rs, cl, e] as stored                   *)
EXTENDS Num, Decimal, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Died(r) == Has(r, "died")
Rejected(r) == Died(r) /\ r.died = 6
Returned(r) == ~Died(r) /\ ~Has(r, "post")

(* a matrix as a function on the places of its stored entries                  *)
Places(s) == {<<s.ent[k][1], s.ent[k][2]>> : k \in 1..Len(s.ent)}
Mat(s) == [p \in Places(s) |-> LET k == CHOOSE k \in 1..Len(s.ent) : s.ent[k][1] = p[1] /\ s.ent[k][2] = p[2] IN s.ent[k][3]]
ValueAt(M, p) == IF p \in DOMAIN M THEN M[p] ELSE CZero

(* what the library gave                                                       *)
(* (the row starts as runs <<value, how often>>)                               *)
Runs(s) == [q \in 1..Len(s.rs) |-> FoldLeft(LAMBDA a, r : a + r[2], 0, SubSeq(s.rs, 1, q))]
Form(s, c, n, m) ==
  /\ s.c = c /\ s.d = <<n, m>>
  /\ Len(s.rs) > 0 /\ Runs(s)[Len(s.rs)] = n + 1 /\ s.rs[1][1] = 0 /\ s.rs[Len(s.rs)][1] = Len(s.cl) /\ Len(s.e) = Len(s.cl)
  /\ \A q \in 1..(Len(s.rs) - 1) : s.rs[q][1] < s.rs[q + 1][1]
  /\ \A k \in 1..Len(s.cl) : IsNat(s.cl[k]) /\ Less(s.cl[k], m)
  /\ \A q \in 1..(Len(s.rs) - 1) : \A k \in (s.rs[q][1] + 1)..(s.rs[q + 1][1] - 1) : Less(s.cl[k], s.cl[k + 1])
  /\ (~c => \A k \in 1..Len(s.e) : s.e[k][2] = 0)
RowOf(s, k) == LET q == CHOOSE q \in 1..(Len(s.rs) - 1) : s.rs[q][1] < k /\ k <= s.rs[q + 1][1] IN Runs(s)[q]
Got(s) == LET P == [k \in 1..Len(s.cl) |-> <<RowOf(s, k) - 1, s.cl[k]>>]
          IN [p \in {P[k] : k \in 1..Len(P)} |-> s.e[CHOOSE k \in 1..Len(P) : P[k] = p]]
Is(s, c, n, m, W) ==       \* stands for the function W (zero elsewhere)
  /\ Form(s, c, n, m)
  /\ LET G == Got(s) IN \A p \in DOMAIN G \cup DOMAIN W : ValueAt(G, p) = ValueAt(W, p)

NeedRows(s) == FoldLeft(LAMBDA a, e : IF e[1] >= a THEN e[1] + 1 ELSE a, s.n, s.ent)
NeedCols(s) == FoldLeft(LAMBDA a, e : IF Less(e[2], a) THEN a ELSE Plus(e[2], <<1>>), s.m, s.ent)
Bin(k, A, B) == [p \in DOMAIN A \cup DOMAIN B |->
  LET x == ValueAt(A, p)
      y == ValueAt(B, p)
  IN CASE k = "+" -> CAdd(x, y) [] k = "-" -> CSub(x, y) [] k = "*" -> CMul(x, y)]
(* a (x) b, the index of b running first                                       *)
KronAt(s, t, p, q) == <<p[1] * t.n + q[1], Plus(Times(p[2], t.m), q[2])>>
KronOf(s, t) ==
  LET A == Mat(s)
      B == Mat(t)
      P == (DOMAIN A) \X (DOMAIN B)
      F == [pq \in P |-> KronAt(s, t, pq[1], pq[2])]
  IN [x \in {F[pq] : pq \in P} |-> LET pq == CHOOSE pq \in P : F[pq] = x IN CMul(A[pq[1]], B[pq[2]])]
Un(k, n, A) == [p \in DOMAIN A |->
  CASE k = "neg" -> CNeg(A[p]) [] k = "conj" -> CConj(A[p]) [] k = "real" -> <<A[p][1], 0>> [] k = "imag" -> <<A[p][2], 0>>
    [] k = "num" -> CMul(A[p], n) [] k = "copy" -> A[p]]

(* rows and columns exchanged: fewer columns than an integer here can count    *)
ToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + (IF Len(a) > 1 THEN 10000 * a[2] ELSE 0)
Turned(s, A) == [p \in {<<ToInt(q[2]), MulAdd(<<>>, 1, q[1])>> : q \in DOMAIN A} |->
                   A[CHOOSE q \in DOMAIN A : <<ToInt(q[2]), MulAdd(<<>>, 1, q[1])>> = p]]

Good(ev) ==
  LET op == ev.op
      r == ev.r
      s == ev.s
  IN
  CASE op = "wide_trip" ->   \* the columns asked for, or as many as the entries need
         Returned(r) /\ Is(r.s, s.c, NeedRows(s), NeedCols(s), Mat(s))
    [] op = "wide_repr" -> Returned(r) /\ Is(r.s, s.c, s.n, s.m, Mat(s)) /\ r.cols = s.m
    [] op = "wide_get" ->    \* a column counted from the start, or (neg) from the end
         IF IF ev.neg THEN Less(s.m, ev.j) ELSE ~Less(ev.j, s.m) THEN Rejected(r)
         ELSE Returned(r) /\ (~ev.neg => r.v = ValueAt(Mat(s), <<ev.i, ev.j>>))
                          /\ (ev.neg => \A p \in DOMAIN Mat(s) : (p[1] = ev.i /\ Plus(p[2], ev.j) = s.m) => r.v = Mat(s)[p])
                          /\ (ev.neg /\ (\A p \in DOMAIN Mat(s) : ~(p[1] = ev.i /\ Plus(p[2], ev.j) = s.m)) => r.v = CZero)
    [] op = "wide_turn" -> Returned(r) /\ Is(r.s, s.c, ToInt(s.m), MulAdd(<<>>, 1, s.n), Turned(s, Un(IF ev.k = "adjoint" THEN "conj" ELSE "copy", CZero, Mat(s))))
    [] op = "wide_un" -> Returned(r) /\ Is(r.s, CASE ev.k \in {"real", "imag"} -> FALSE [] OTHER -> s.c, s.n, s.m, Un(ev.k, ev.z, Mat(s)))
    [] op = "wide_bin" ->
         IF s.n # ev.t.n \/ s.m # ev.t.m THEN Rejected(r)
         ELSE Returned(r) /\ Is(r.s, s.c \/ ev.t.c, s.n, s.m, Bin(ev.k, Mat(s), Mat(ev.t)))
    [] op = "wide_kron" ->
         Returned(r) /\ Is(r.s, s.c, s.n * ev.t.n, Times(s.m, ev.t.m), IF ev.k = "kron" THEN KronOf(s, ev.t) ELSE KronOf(ev.t, s))
    [] op = "wide_equal" ->
         Returned(r) /\ r.v = (s.n = ev.t.n /\ s.m = ev.t.m /\ \A p \in Places(s) \cup Places(ev.t) : ValueAt(Mat(s), p) = ValueAt(Mat(ev.t), p))

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ IF Good(Events[i']) THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id>>)
=============================================================================
