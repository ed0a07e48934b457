--------------------------- MODULE TensorAlgebra ---------------------------
(* What the dense operations of libtensor mean.                              *)
(*                                                                           *)
(* A tensor value is [c |-> complex?, d |-> dimensions, e |-> elements in    *)
(* column-major order].  Every operation is defined through multi-indices:   *)
(* Tab(c, d, F) is the tensor of dimensions d whose element with (0-based)   *)
(* multi-index i is F(i); At(t, i) reads one element.  None of the loops,    *)
(* strides or fast paths of the library appear here.                         *)
EXTENDS Num

(* ---------------------------------------------------------------- shapes *)
Size(d) == IF Len(d) = 0 THEN 0 ELSE ProdSeq(d)
Rank(t) == Len(t.d)
NElems(t) == Len(t.e)

(* strides: element i lives at 1 + Sum_j i[j]*st[j]                           *)
RECURSIVE StridesFrom(_, _)
StridesFrom(d, s) == IF Len(d) = 0 THEN <<>> ELSE <<s>> \o StridesFrom(Tail(d), s * Head(d))
Strides(d) == StridesFrom(d, 1)
Offset(st, i) == SumSeq([j \in 1..Len(st) |-> st[j] * i[j]])
Unrank(d, st, k) == [j \in 1..Len(d) |-> (k \div st[j]) % d[j]]

WellFormed(t) == /\ \A j \in 1..Len(t.d) : t.d[j] >= 0
                 /\ Len(t.e) = Size(t.d)
                 /\ (~t.c => \A k \in 1..Len(t.e) : t.e[k][2] = 0)

Tab(c, d, F(_)) == LET st == Strides(d)
                   IN [c |-> c, d |-> d, e |-> [k \in 1..Size(d) |-> F(Unrank(d, st, k - 1))]]
At(t, i) == t.e[1 + Offset(Strides(t.d), i)]
(* the same with the strides computed once                                    *)
AtS(t, st, i) == t.e[1 + Offset(st, i)]

Tensor(c, d, e) == [c |-> c, d |-> d, e |-> e]
Map1(c, t, F(_)) == [c |-> c, d |-> t.d, e |-> [k \in 1..Len(t.e) |-> F(t.e[k])]]
Map2(c, a, b, F(_, _)) == [c |-> c, d |-> a.d, e |-> [k \in 1..Len(a.e) |-> F(a.e[k], b.e[k])]]

ValidIndex(i, d) == -d <= i /\ i < d
Norm(i, d) == IF i < 0 THEN i + d ELSE i
InRange(i, d) == Len(i) = Len(d) /\ \A j \in 1..Len(i) : ValidIndex(i[j], d[j])
NormAll(i, d) == [j \in 1..Len(i) |-> Norm(i[j], d[j])]

RemoveIx(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
InsertIx(s, j, x) == SubSeq(s, 1, j - 1) \o <<x>> \o SubSeq(s, j, Len(s))
SwapIx(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]

(* ---------------------------------------------------------------- access *)
Get(t, i) == At(t, NormAll(i, t.d))
PutAt(t, k, v) == [t EXCEPT !.e[k] = v]
Put(t, i, v) == PutAt(t, 1 + Offset(Strides(t.d), NormAll(i, t.d)), v)

(* ---------------------------------------------------------------- ranges *)
(* <<"s",n>> single, <<"r",a,b>> a..b, <<"t",a,b,step>>, <<"i",list>>, <<"f">> *)
StepList(a, b, s) ==
  IF s > 0 THEN IF b < a THEN <<>> ELSE [k \in 1..((b - a) \div s + 1) |-> a + (k - 1) * s]
  ELSE IF a < b THEN <<>> ELSE [k \in 1..((a - b) \div (-s) + 1) |-> a + (k - 1) * s]
RangeList(r, d) ==
  CASE r[1] = "s" -> <<r[2]>>
    [] r[1] = "r" -> StepList(r[2], r[3], 1)
    [] r[1] = "t" -> StepList(r[2], r[3], r[4])
    [] r[1] = "i" -> r[2]
    [] r[1] = "f" -> [k \in 1..d |-> k - 1]
InDim(k, d) == k >= 0 /\ k < d
StepOK(a, b, s, d) ==                \* the ends of the list stand for the rest of it
  IF s > 0 THEN b < a \/ (InDim(a, d) /\ InDim(a + ((b - a) \div s) * s, d))
  ELSE a < b \/ (InDim(a, d) /\ InDim(a + ((a - b) \div (-s)) * s, d))
RangeOK(r, d) ==
  CASE r[1] = "s" -> InDim(r[2], d)
    [] r[1] = "r" -> StepOK(r[2], r[3], 1, d)
    [] r[1] = "t" -> StepOK(r[2], r[3], r[4], d)
    [] r[1] = "i" -> \A k \in 1..Len(r[2]) : InDim(r[2][k], d)
    [] r[1] = "f" -> TRUE

(* a single range addresses a tensor of any rank as a vector                  *)
RangeDims(t, rs) == IF Len(rs) = 1 THEN <<NElems(t)>> ELSE t.d
RangesOK(t, rs) == /\ Len(rs) = Len(RangeDims(t, rs))
                   /\ \A j \in 1..Len(rs) : RangeOK(rs[j], RangeDims(t, rs)[j])
(* positions (1-based, in e) selected by the ranges, in order                 *)
Selected(t, rs) ==
  LET dd == RangeDims(t, rs)
      L  == [j \in 1..Len(rs) |-> RangeList(rs[j], dd[j])]
      vd == [j \in 1..Len(rs) |-> Len(L[j])]
      st == Strides(dd)
      vs == Strides(vd)
  IN [k \in 1..Size(vd) |->
        LET i == Unrank(vd, vs, k - 1)
        IN 1 + SumSeq([j \in 1..Len(rs) |-> st[j] * L[j][i[j] + 1]])]
ViewDims(t, rs) == LET dd == RangeDims(t, rs) IN [j \in 1..Len(rs) |-> Len(RangeList(rs[j], dd[j]))]
View(t, rs) == LET s == Selected(t, rs)
               IN Tensor(t.c, ViewDims(t, rs), [k \in 1..Len(s) |-> t.e[s[k]]])
(* assignment in order: a position listed twice keeps the last value          *)
Assign(t, rs, src) ==
  LET s == Selected(t, rs)
      last(p) == CHOOSE k \in 1..Len(s) : s[k] = p /\ \A m \in (k + 1)..Len(s) : s[m] # p
      sel == {s[k] : k \in 1..Len(s)}
  IN [t EXCEPT !.e = [p \in 1..Len(t.e) |-> IF p \in sel THEN src[last(p)] ELSE t.e[p]]]

(* ---------------------------------------------------------------- layout *)
Reshape(t, d) == [t EXCEPT !.d = d]
(* the size when it is below Huge, and Huge or more otherwise                 *)
Huge == 2 ^ 20
RECURSIVE SatSize(_, _)
SatSize(d, p) == IF Len(d) = 0 THEN p
                 ELSE IF p >= Huge \/ Head(d) >= Huge THEN (IF 0 \in {d[j] : j \in 1..Len(d)} THEN 0 ELSE Huge)
                 ELSE SatSize(Tail(d), p * Head(d))
Dimensions(d) == \A j \in 1..Len(d) : d[j] >= 0
CanReshape(t, d) == Dimensions(d) /\ (IF Len(d) = 0 THEN 0 ELSE SatSize(d, 1)) = NElems(t)
Flatten(t) == Reshape(t, <<NElems(t)>>)
SqueezeDims(d) == SelectSeq(d, LAMBDA x : x # 1)
(* a tensor with a single element keeps one dimension: a rank-0 tensor has no elements *)
Squeeze(t) == LET q == SqueezeDims(t.d)
              IN Reshape(t, IF Len(q) = 0 /\ NElems(t) = 1 THEN <<1>> ELSE q)
Permute(t, i, j) ==
  LET a == Norm(i, Rank(t)) + 1
      b == Norm(j, Rank(t)) + 1
      st == Strides(t.d)
  IN Tab(t.c, SwapIx(t.d, a, b), LAMBDA x : AtS(t, st, SwapIx(x, a, b)))
Transpose(t) == Permute(t, 0, 1)
Conj(t) == Map1(t.c, t, CConj)
Adjoint(t) == Conj(Transpose(t))
ChangeDimension(t, i, n) ==
  LET a == Norm(i, Rank(t)) + 1
      st == Strides(t.d)
  IN Tab(t.c, [t.d EXCEPT ![a] = n], LAMBDA x : IF x[a] < t.d[a] THEN AtS(t, st, x) ELSE CZero)

(* ----------------------------------------------------------- contraction *)
Scalar1(d) == IF Len(d) = 0 THEN <<1>> ELSE d
FoldOK(a, i, b, j) == /\ Rank(a) > 0 /\ Rank(b) > 0
                      /\ ValidIndex(i, Rank(a)) /\ ValidIndex(j, Rank(b))
                      /\ a.d[Norm(i, Rank(a)) + 1] = b.d[Norm(j, Rank(b)) + 1]
FoldG(a, i, b, j, cj) ==
  LET ai == Norm(i, Rank(a)) + 1
      bj == Norm(j, Rank(b)) + 1
      l == a.d[ai]
      ra == RemoveIx(a.d, ai)
      rb == RemoveIx(b.d, bj)
      sa == Strides(a.d)
      sb == Strides(b.d)
      A == IF cj THEN Conj(a) ELSE a
      rr == ra \o rb
      na == Len(ra)
      t == Tab(a.c \/ b.c, IF Len(rr) = 0 THEN <<1>> ELSE rr, LAMBDA x :
             LET xa == SubSeq(x, 1, na)
                 xb == SubSeq(x, na + 1, Len(rr))
                 \* offsets of the first terms; the common index then adds its stride
                 oa == Offset(sa, InsertIx(xa, ai, 0))
                 ob == Offset(sb, InsertIx(xb, bj, 0))
             IN CSum([k \in 1..l |-> CMul(A.e[1 + oa + (k - 1) * sa[ai]], b.e[1 + ob + (k - 1) * sb[bj]])]))
  IN t
Fold(a, i, b, j)  == FoldG(a, i, b, j, FALSE)
FoldC(a, i, b, j) == FoldG(a, i, b, j, TRUE)
MMult(a, b) == Fold(a, -1, b, 0)
(* foldin: C(k.., i.., j.., m..) = Sum_l A(i..,l,j..) B(k..,l,m..)            *)
FoldIn(a, i, b, j) ==
  LET ai == Norm(i, Rank(a)) + 1
      bj == Norm(j, Rank(b)) + 1
      l == a.d[ai]
      k1 == bj - 1
      rr == SubSeq(b.d, 1, k1) \o RemoveIx(a.d, ai) \o SubSeq(b.d, bj + 1, Rank(b))
      sa == Strides(a.d)
      sb == Strides(b.d)
      na == Rank(a) - 1
  IN Tab(a.c \/ b.c, IF Len(rr) = 0 THEN <<1>> ELSE rr, LAMBDA x :
       LET xb == SubSeq(x, 1, k1) \o SubSeq(x, k1 + na + 1, Len(rr))
           xa == SubSeq(x, k1 + 1, k1 + na)
           oa == Offset(sa, InsertIx(xa, ai, 0))
           ob == Offset(sb, InsertIx(xb, bj, 0))
       IN CSum([k \in 1..l |-> CMul(a.e[1 + oa + (k - 1) * sa[ai]], b.e[1 + ob + (k - 1) * sb[bj]])]))
(* scalar product: linear in the first argument, conjugate-linear in the second *)
ScProd(a, b) == CSum([k \in 1..NElems(a) |-> CMul(a.e[k], CConj(b.e[k]))])

(* ------------------------------------------------------------ arithmetic *)
Arith(k, x, y) == CASE k = "+" -> CAdd(x, y) [] k = "-" -> CSub(x, y)
                    [] k = "*" -> CMul(x, y) [] k = "/" -> CDiv(x, y)

(* ------------------------------------------------------------ comparison *)
Cmp(k, x, y) == CASE k = "==" -> x = y [] k = "!=" -> x # y [] k = "<" -> x < y
                  [] k = ">" -> x > y [] k = "<=" -> x <= y [] k = ">=" -> x >= y
(* floating point numbers: not-a-number is not equal to anything, -0 is 0      *)
NaNCode == 2000000003
FNum(x) == IF x = 1999999999 THEN 0 ELSE x
FCmp(k, x, y) == IF x = NaNCode \/ y = NaNCode THEN k = "!=" ELSE Cmp(k, FNum(x), FNum(y))
FEq(z, w) == FCmp("==", z[1], w[1]) /\ FCmp("==", z[2], w[2])
CCmp(k, z, w) == CASE k = "==" -> FEq(z, w) [] k = "!=" -> ~FEq(z, w)
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
Descending(s) == \A k \in 1..(Len(s) - 1) : s[k] >= s[k + 1]
Occ(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, r) == /\ Len(s) = Len(r)
                 /\ \A k \in 1..Len(s) : Occ(s, s[k]) = Occ(r, s[k])
IsPermutation(p) == {p[k] : k \in 1..Len(p)} = {k - 1 : k \in 1..Len(p)}

(* ------------------------------------------------------------ reductions *)
Sum(t) == CSum(t.e)
MeanIx(t, i) ==   \* sums; the caller divides by the length of the dimension
  LET a == Norm(i, Rank(t)) + 1
      st == Strides(t.d)
  IN Tab(t.c, RemoveIx(t.d, a), LAMBDA x : CSum([k \in 1..t.d[a] |-> AtS(t, st, InsertIx(x, a, k - 1))]))
Trace(t) == CSum([k \in 1..Min2(t.d[1], t.d[2]) |-> At(t, <<k - 1, k - 1>>)])
TraceIx(t, i, j) ==
  LET p == Norm(i, Rank(t)) + 1
      q == Norm(j, Rank(t)) + 1
      a == Min2(p, q)
      b == Max2(p, q)
      st == Strides(t.d)
      rr == RemoveIx(RemoveIx(t.d, b), a)
  IN Tab(t.c, Scalar1(rr), LAMBDA x :
       LET y == IF Len(rr) = 0 THEN <<>> ELSE x
       IN CSum([k \in 1..Min2(t.d[a], t.d[b]) |->
                  AtS(t, st, InsertIx(InsertIx(y, a, k - 1), b, k - 1))]))
DiagStart(w) == <<IF w < 0 THEN -w ELSE 0, IF w > 0 THEN w ELSE 0>>
DiagLen(w, r, c) == Min2(r - DiagStart(w)[1], c - DiagStart(w)[2])
Diag(v, w, r, c) ==
  Tab(v.c, <<r, c>>, LAMBDA x :
      IF x[2] - x[1] = w THEN v.e[1 + x[1] - DiagStart(w)[1]] ELSE CZero)
(* A(.., k + start, .., k + start + w, ..): row index in dimension i, column   *)
(* index in dimension j; the diagonal takes the place of the smaller dimension *)
TakeDiag(t, w, i, j) ==
  LET a == Norm(i, Rank(t)) + 1
      b == Norm(j, Rank(t)) + 1
      n == DiagLen(w, t.d[a], t.d[b])
      r0 == DiagStart(w)[1]
      c0 == DiagStart(w)[2]
      p == Min2(a, b)
      q == Max2(a, b)
      p0 == IF a < b THEN r0 ELSE c0
      q0 == IF a < b THEN c0 ELSE r0
      st == Strides(t.d)
      dd == RemoveIx([t.d EXCEPT ![p] = n], q)
  IN Tab(t.c, dd, LAMBDA x :
       AtS(t, st, InsertIx([x EXCEPT ![p] = x[p] + p0], q, x[p] + q0)))
Scale(t, i, v) ==
  LET a == Norm(i, Rank(t)) + 1
      st == Strides(t.d)
  IN Tab(t.c \/ v.c, t.d, LAMBDA x : CMul(AtS(t, st, x), v.e[1 + x[a]]))
AsColumn(t) == IF Rank(t) = 1 THEN Reshape(t, <<t.d[1], 1>>) ELSE t
(* kron: the index of the second factor runs fastest (Matlab order)          *)
Kron(a, b) ==
  LET A == AsColumn(a)
      B == AsColumn(b)
      M == Tab(a.c \/ b.c, <<A.d[1] * B.d[1], A.d[2] * B.d[2]>>, LAMBDA x :
             CMul(At(A, <<x[1] \div B.d[1], x[2] \div B.d[2]>>),
                  At(B, <<x[1] % B.d[1], x[2] % B.d[2]>>)))
  IN IF Rank(a) = 1 THEN Flatten(M) ELSE M
Kron2(a, b) == Kron(b, a)
Eye(c, r, k) == Tab(c, <<r, k>>, LAMBDA x : IF x[1] = x[2] THEN COne ELSE CZero)
Const(c, d, v) == Tab(c, d, LAMBDA x : v)
TAdd(a, b) == Map2(a.c \/ b.c, a, b, CAdd)
TSub(a, b) == Map2(a.c \/ b.c, a, b, CSub)
TMulN(a, z) == Map1(a.c, a, LAMBDA v : CMul(v, z))
(* Kronecker sum in the order of kron: a (x) 1 + 1 (x) b                      *)
KronSum(a, b) ==
  IF Rank(a) = 1
  THEN TAdd(Kron(a, Const(b.c, b.d, COne)), Kron(Const(a.c, a.d, COne), b))
  ELSE TAdd(Kron(a, Eye(b.c, b.d[1], b.d[1])), Kron(Eye(a.c, a.d[1], a.d[1]), b))

(* ------------------------------------------------------------ generators *)
Iota(a, b, s) == IF b < a THEN <<>> ELSE [k \in 1..((b - a) \div s + 1) |-> a + (k - 1) * s]
(* (n-1) times the k-th entry of linspace(a, b, n), 0 <= k < n                *)
LinScaled(a, b, n, k) == CAdd(CScale(n - 1 - k, a), CScale(k, b))
=============================================================================
