------------------------------- MODULE MCMoves -------------------------------
(* How the library moves and combines elements, by stepping pointers through    *)
(* memory, against what TensorAlgebra says the result is, for every small shape *)
(* and every choice of dimensions:                                              *)
(*   permute   four ways of walking, chosen by which groups of dimensions have  *)
(*             a single element                                                 *)
(*   fold      the contraction as calls of a matrix product, with or without    *)
(*             transposing and conjugating, chosen in the same manner           *)
(*   foldin    the same with the other order of the result                      *)
(*   change_dimension, take_diag: blocks                                        *)
(* One state per operation and shape.  A position is an offset in memory; the   *)
(* result of a move is the list of source positions, in the order of the result.*)
EXTENDS TensorAlgebra, TLC
CONSTANTS MaxRank, MaxLen, FoldRank, Bug     \* Bug: "" | "conj" | "unit" | "short"

Prod(d, i, j) == ProdSeq(SubSeq(d, i, j))
(* the tensor whose elements are their own positions                           *)
Pos(d) == [c |-> FALSE, d |-> d, e |-> [k \in 1..Size(d) |-> <<k - 1, 0>>]]
PosOf(t) == [k \in 1..Len(t.e) |-> t.e[k][1]]

(* nested loops, outermost first, each <<times, stride>>: the offsets visited  *)
RECURSIVE Visit(_, _)
Visit(loops, at) ==
  IF loops = <<>> THEN <<at>>
  ELSE LET h == Head(loops)
           part == [k \in 1..h[1] |-> Visit(Tail(loops), at + (k - 1) * h[2])]
       IN FoldLeft(LAMBDA x, y : x \o y, <<>>, part)
(* elements read one after another, written where the loops go                 *)
Scatter(loops, n) == LET v == Visit(loops, 0)
                     IN [q \in 1..n |-> IF \E k \in 1..Len(v) : v[k] = q - 1
                                        THEN (CHOOSE k \in 1..Len(v) : v[k] = q - 1) - 1 ELSE -1]
P12(a1, a2, a3) == <<<<a3, a1 * a2>>, <<a2, 1>>, <<a1, a2>>>>
P23(a1, a2, a3, a4) == <<<<a4, a1 * a3 * a2>>, <<a3, a1>>, <<a2, a1 * a3>>, <<a1, 1>>>>
P24(a1, a2, a3, a4, a5) == <<<<a5, a1 * a4 * a3 * a2>>, <<a4, a1>>, <<a3, a1 * a4>>, <<a2, a1 * a4 * a3>>, <<a1, 1>>>>
P13(a1, a2, a3, a4) == <<<<a4, a3 * a2 * a1>>, <<a3, 1>>, <<a2, a3>>, <<a1, a3 * a2>>>>

DoPermute(d, n1, n2) ==       \* n1 < n2, 1-based
  LET a1 == Prod(d, 1, n1 - 1)
      a2 == d[n1]
      a3 == Prod(d, n1 + 1, n2 - 1)
      a4 == d[n2]
      a5 == Prod(d, n2 + 1, Len(d))
      n == Size(d)
      same == [q \in 1..n |-> q - 1]
      noA3(x2, x4) == IF x4 > 1 \/ x2 > 1
                      THEN Scatter(IF a1 > 1 THEN P23(a1, x2, x4, a5) ELSE P12(x2, x4, a5), n)
                      ELSE same
  IN IF n = 0 THEN <<>>
     ELSE IF a2 = 1 THEN noA3(a3, a4)
     ELSE IF a4 = 1 THEN (IF Bug = "unit" THEN noA3(a3, a2) ELSE noA3(a2, a3))
     ELSE IF a3 > 1 THEN Scatter(IF a1 > 1 THEN P24(a1, a2, a3, a4, a5) ELSE P13(a2, a3, a4, a5), n)
     ELSE noA3(a2, a4)

(* C = op(A) op(B): for each position of C the products that are added up,     *)
(* as <<position in A, conjugated?, position in B, conjugated?>>               *)
OpAt(op, i, j, ld) == IF op = "N" THEN i + j * ld ELSE j + i * ld
Gemm(C, opa, opb, m, n, k, pa, lda, pb, ldb, pc, ldc) ==
  [q \in DOMAIN C |->
     LET o == q - 1 - pc
         i == o % ldc
         j == o \div ldc
     IN IF o < 0 \/ i >= m \/ j >= n THEN C[q]
        ELSE [l \in 1..k |-> <<pa + OpAt(opa, i, l - 1, lda), opa = "C", pb + OpAt(opb, l - 1, j, ldb), opb = "C">>]]
Nothing(n) == [q \in 1..n |-> <<>>]
RECURSIVE Calls(_, _, _)
Calls(C, f(_, _), n) == IF n = 0 THEN C ELSE f(Calls(C, f, n - 1), n - 1)

DoFold(da, n1, db, n2, cj) ==
  LET i == Prod(da, 1, n1 - 1)
      l == da[n1]
      j == Prod(da, n1 + 1, Len(da))
      k == Prod(db, 1, n2 - 1)
      m == Prod(db, n2 + 1, Len(db))
      n == i * j * k * m
      T == IF cj THEN "C" ELSE "T"
      flip(x) == [q \in DOMAIN x |-> [r \in DOMAIN x[q] |-> <<x[q][r][1], ~x[q][r][2], x[q][r][3], ~x[q][r][4]>>]]
      one(C, jm) == LET jj == jm % j
                        mm == jm \div j
                    IN Gemm(C, "N", IF cj THEN "C" ELSE "T", i, k, l, i * l * jj, i, k * l * mm, k, i * (jj + j * k * mm), i * j)
      slow == Calls(Nothing(n), one, j * m)
  IN IF n = 0 THEN <<>>
     ELSE IF i = 1 /\ k = 1 THEN Gemm(Nothing(n), T, "N", j, m, l, 0, l, 0, l, 0, j)
     ELSE IF i = 1 /\ m = 1 THEN Gemm(Nothing(n), T, "T", j, k, l, 0, l, 0, k, 0, j)
     ELSE IF i # 1 /\ j = 1 /\ (~cj \/ Bug = "conj") /\ k = 1 THEN Gemm(Nothing(n), "N", "N", i, m, l, 0, i, 0, l, 0, i)
     ELSE IF i # 1 /\ j = 1 /\ (~cj \/ Bug = "conj") /\ m = 1 THEN Gemm(Nothing(n), "N", "T", i, k, l, 0, i, 0, k, 0, i)
     ELSE IF cj THEN flip(slow) ELSE slow

DoFoldIn(da, n1, db, n2) ==
  LET i == Prod(da, 1, n1 - 1)
      l == da[n1]
      j == Prod(da, n1 + 1, Len(da))
      k == Prod(db, 1, n2 - 1)
      m == Prod(db, n2 + 1, Len(db))
      n == i * j * k * m
      (* the library calls gemm with the matrices of B first                   *)
      one(C, jm) == LET jj == jm % j
                        mm == jm \div j
                        G == Gemm(Nothing(n), "N", "T", k, i, l, k * l * mm, k, i * l * jj, i, k * i * (jj + j * mm), k)
                    IN [q \in DOMAIN C |-> IF G[q] = <<>> THEN C[q]
                                           ELSE [r \in DOMAIN G[q] |-> <<G[q][r][3], G[q][r][4], G[q][r][1], G[q][r][2]>>]]
  IN IF n = 0 THEN <<>> ELSE Calls(Nothing(n), one, j * m)

(* what the contractions mean, in the same terms: the dimensions left of a,    *)
(* then those of b (fold), or those of a in the place of the one of b (foldin) *)
FoldMeans(da, n1, db, n2, cj, inside) ==
  LET ra == RemoveIx(da, n1)
      rb == RemoveIx(db, n2)
      k1 == n2 - 1
      na == Len(ra)
      rr == IF inside THEN SubSeq(db, 1, k1) \o ra \o SubSeq(db, n2 + 1, Len(db)) ELSE ra \o rb
      sa == Strides(da)
      sb == Strides(db)
      st == Strides(rr)
  IN [q \in 1..ProdSeq(rr) |->
        LET x == Unrank(rr, st, q - 1)
            xa == IF inside THEN SubSeq(x, k1 + 1, k1 + na) ELSE SubSeq(x, 1, na)
            xb == IF inside THEN SubSeq(x, 1, k1) \o SubSeq(x, k1 + na + 1, Len(rr)) ELSE SubSeq(x, na + 1, Len(rr))
        IN [l \in 1..da[n1] |-> <<Offset(sa, InsertIx(xa, n1, l - 1)), cj, Offset(sb, InsertIx(xb, n2, l - 1)), FALSE>>]]

(* blocks of dp_old elements copied to blocks of dp_new elements               *)
DoChange(d, n, new) ==
  LET i == Prod(d, 1, n - 1)
      k == Prod(d, n + 1, Len(d))
      po == d[n] * i
      pn == new * i
      sz == IF Bug = "short" THEN Min2(po, pn) - (IF pn > po + 1 THEN 1 ELSE 0) ELSE Min2(po, pn)
  IN [q \in 1..pn * k |-> LET b == (q - 1) \div pn
                              o == (q - 1) % pn
                          IN IF o < sz THEN b * po + o ELSE -1]
ChangeMeans(d, n, new) ==
  LET dn == [d EXCEPT ![n] = new]
      st == Strides(dn)
  IN [q \in 1..Size(dn) |-> LET x == Unrank(dn, st, q - 1)
                            IN IF x[n] < d[n] THEN Offset(Strides(d), x) ELSE -1]

DoDiag(d, w0, n1, n2) ==      \* n1 < n2
  LET a1 == Prod(d, 1, n1 - 1)
      a2 == d[n1]
      a3 == Prod(d, n1 + 1, n2 - 1)
      a4 == d[n2]
      a5 == Prod(d, n2 + 1, Len(d))
      w == w0
      o1 == IF w < 0 THEN -w ELSE 0
      o2 == IF w < 0 THEN 0 ELSE w
      n == Min2(a2 - o1, a4 - o2)
  IN [q \in 1..a1 * n * a3 * a5 |->
        LET i == (q - 1) % a1
            l == ((q - 1) \div a1) % n
            k == ((q - 1) \div (a1 * n)) % a3
            m == (q - 1) \div (a1 * n * a3)
        IN i + a1 * ((o1 + l) + a2 * (k + a3 * ((o2 + l) + a4 * m)))]

(* ------------------------------------------------------------------ cases  *)
ShapesOf(r, lo) == UNION {[1..x -> lo..MaxLen] : x \in 1..r}
VARIABLES op, a, b, i, j, x
vars == <<op, a, b, i, j, x>>
Init ==
  \/ /\ op = "permute" /\ a \in ShapesOf(MaxRank, 0) /\ b = <<>> /\ x = 0
     /\ i \in 1..Len(a) /\ j \in 1..Len(a) /\ i < j
  \/ /\ op = "change" /\ a \in ShapesOf(MaxRank, 0) /\ b = <<>> /\ j = 0
     /\ i \in 1..Len(a) /\ x \in 0..MaxLen + 2
  \/ /\ op = "diag" /\ a \in ShapesOf(MaxRank, 1) /\ b = <<>>
     /\ i \in 1..Len(a) /\ j \in 1..Len(a) /\ i < j
     /\ x \in -MaxLen..MaxLen /\ -x < a[i] /\ x < a[j]
  \/ /\ op \in {"fold", "foldc", "foldin"} /\ a \in ShapesOf(FoldRank, 1) /\ b \in ShapesOf(FoldRank, 1)
     /\ i \in 1..Len(a) /\ j \in 1..Len(b) /\ a[i] = b[j] /\ x = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Right ==
  CASE op = "permute" -> DoPermute(a, i, j) = PosOf(Permute(Pos(a), i - 1, j - 1))
    [] op = "change" -> DoChange(a, i, x) = ChangeMeans(a, i, x)
    [] op = "diag" -> DoDiag(a, x, i, j) = PosOf(TakeDiag(Pos(a), x, i - 1, j - 1))
    [] op = "fold" -> DoFold(a, i, b, j, FALSE) = FoldMeans(a, i, b, j, FALSE, FALSE)
    [] op = "foldc" -> DoFold(a, i, b, j, TRUE) = FoldMeans(a, i, b, j, TRUE, FALSE)
    [] op = "foldin" -> DoFoldIn(a, i, b, j) = FoldMeans(a, i, b, j, FALSE, TRUE)
===============================================================================
