---------------------------- MODULE TraceDense ----------------------------
(* Conformance of the dense tensor operations: every event of the trace is a *)
(* call made on the real library together with what it did.  The value the   *)
(* specification requires is computed here; an event is bad when the library *)
(* returned something else, changed an input, accepted what has to be        *)
(* rejected or rejected what has to be accepted.                             *)
EXTENDS TensorAlgebra, Fix, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

Has(r, f) == f \in DOMAIN r
Opt(r, f, dflt) == IF Has(r, f) THEN r[f] ELSE dflt

Died(r) == Has(r, "died")
Rejected(r) == Died(r) /\ r.died = 6          \* SIGABRT: diagnosed, not a crash
Returned(r) == ~Died(r) /\ ~Has(r, "post")    \* and no input was changed

(* expected values are scaled by ss to meet the fixed-point results           *)
Sc(ev, t) == IF Has(ev, "ss") THEN Map1(t.c, t, LAMBDA z : CScale(ev.ss, z)) ELSE t
ScN(ev, z) == IF Has(ev, "ss") THEN CScale(ev.ss, z) ELSE z

RP(t) == Map1(FALSE, t, LAMBDA z : <<z[1], 0>>)
IP(t) == Map1(FALSE, t, LAMBDA z : <<z[2], 0>>)
Dims(t) == t.d
Nonneg(d) == \A j \in 1..Len(d) : d[j] >= 0
Opnd(ev) == IF Opt(ev, "al", 0) = 0 THEN ev.y ELSE ev.x   \* aliased right operand

IxOK(t, i) == InRange(i, t.d)
IxPos(t, i) == 1 + Offset(Strides(t.d), NormAll(i, t.d))

(* number on the right / left                                                 *)
Num1(ev) == IF Has(ev, "k") THEN ev.x.e[ev.k + 1] ELSE ev.n
TN(k, ev) == Map1(ev.x.c \/ Opt(ev, "nc", FALSE), ev.x, LAMBDA z : Arith(k, z, Num1(ev)))
NT(k, ev) == Map1(ev.x.c \/ Opt(ev, "nc", FALSE), ev.x, LAMBDA z : Arith(k, Num1(ev), z))
TT(k, ev) == Map2(ev.x.c \/ Opnd(ev).c, ev.x, Opnd(ev), LAMBDA z, w : Arith(k, z, w))
SameDims(ev) == ev.x.d = Opnd(ev).d
SameSize(ev) == NElems(ev.x) = NElems(Opnd(ev))

Ok(v) == <<v>>
Iff(c, v) == IF c THEN <<v>> ELSE <<>>

DimsReport(t) ==
  LET g(k) == IF k <= Rank(t) THEN t.d[k] ELSE -1
  IN <<NElems(t), Rank(t), IF NElems(t) = 0 THEN 1 ELSE 0>> \o t.d
     \o [k \in 1..6 |-> IF Rank(t) <= 6 THEN g(k) ELSE -1] \o <<g(1), g(2), NElems(t), NElems(t)>>

VsetSource(ev) ==
  CASE ev.src = "n" -> [k \in 1..Len(Selected(ev.x, ev.rg)) |-> ev.n]
    [] ev.src = "e" -> [k \in 1..Len(Selected(ev.x, ev.rg)) |-> ev.x.e[ev.k + 1]]
    [] ev.src \in {"self", "copy"} -> ev.x.e
    [] ev.src = "selfview" -> View(ev.x, ev.rg2).e
    [] ev.src = "t" -> ev.y.e
    [] ev.src = "v" -> View(ev.y, ev.rg2).e
VsetRangesOK(ev) == /\ RangesOK(ev.x, ev.rg)
                    /\ (ev.src = "selfview" => RangesOK(ev.x, ev.rg2))
                    /\ (ev.src = "v" => RangesOK(ev.y, ev.rg2))
VsetOK(ev) == /\ VsetRangesOK(ev)
              /\ Len(VsetSource(ev)) = Len(Selected(ev.x, ev.rg))

CmpAll(k, s, r) == [m \in 1..Len(s) |-> Cmp(k, s[m], r[m])]
EqAll(x, y) == x.d = y.d /\ \A k \in 1..NElems(x) : FEq(x.e[k], y.e[k])
Res(s) == [m \in 1..Len(s) |-> s[m][1]]    \* real parts of elements

(* the required result: <<value>>, or <<>> when the call has to be rejected   *)
Exp(ev) ==
  LET op == ev.op IN
  \* --------------------------------------------------------------- access
  CASE op = "get" -> IF IxOK(ev.x, ev.i) THEN <<ev.x.e[IxPos(ev.x, ev.i)]>> ELSE <<>>
    [] op = "getseq" -> Ok(ev.x.e[ev.i + 1])
    [] op \in {"set", "set_inplace"} ->
         IF Len(ev.i) = 1          \* at(i) is the i-th element of all
         THEN IF ValidIndex(ev.i[1], NElems(ev.x)) THEN <<PutAt(ev.x, 1 + Norm(ev.i[1], NElems(ev.x)), ev.n)>> ELSE <<>>
         ELSE IF IxOK(ev.x, ev.i) THEN <<PutAt(ev.x, IxPos(ev.x, ev.i), ev.n)>> ELSE <<>>
    [] op = "setseq" -> Ok(PutAt(ev.x, ev.i + 1, ev.n))
    [] op = "fill" -> Ok(Map1(ev.x.c, ev.x, LAMBDA z : IF Opt(ev, "zero", FALSE) THEN CZero ELSE ev.n))
    [] op = "dims" -> Ok(DimsReport(ev.x))
    [] op = "dimension" -> IF ev.i >= 0 /\ ev.i < Rank(ev.x) THEN <<(<<ev.x.d[ev.i + 1], 0>>)>> ELSE <<>>
    [] op = "getdims" -> IF ev.i = Rank(ev.x) THEN <<[k \in 1..6 |-> IF k <= ev.i THEN ev.x.d[k] ELSE -1]>> ELSE <<>>
    [] op = "ctor" -> IF Nonneg(ev.d) /\ SatSize(ev.d, 1) < Huge THEN <<Tensor(ev.c, ev.d, ev.e)>> ELSE <<>>
    [] op = "ctor_data" -> IF CanReshape(ev.x, ev.d) THEN <<Reshape(ev.x, ev.d)>> ELSE <<>>
    [] op = "ctor_vec" -> Ok(Flatten(ev.x))
    [] op = "coerce" -> Ok(Tensor(TRUE, ev.x.d, ev.x.e))
    [] op = "assign" -> Ok(Opnd(ev))
  \* --------------------------------------------------------------- slices
    [] op \in {"view", "view2"} -> IF RangesOK(ev.x, ev.rg) THEN <<View(ev.x, ev.rg)>> ELSE <<>>
    [] op = "vset" -> IF VsetOK(ev) THEN <<Assign(ev.x, ev.rg, VsetSource(ev))>> ELSE <<>>
  \* --------------------------------------------------------------- layout
    [] op = "reshape" -> IF CanReshape(ev.x, ev.d) THEN <<Reshape(ev.x, ev.d)>> ELSE <<>>
    [] op = "flatten" -> Ok(Flatten(ev.x))
    [] op = "squeeze" -> Ok(Squeeze(ev.x))
    [] op = "permute" -> IF ValidIndex(ev.i, Rank(ev.x)) /\ ValidIndex(ev.j, Rank(ev.x))
                         THEN <<Permute(ev.x, ev.i, ev.j)>> ELSE <<>>
    [] op = "permute0" -> Ok(Permute(ev.x, 0, -1))
    [] op = "transpose" -> IF Rank(ev.x) = 2 THEN <<Transpose(ev.x)>> ELSE <<>>
    [] op = "adjoint" -> IF Rank(ev.x) = 2 THEN <<Adjoint(ev.x)>> ELSE <<>>
    [] op = "change_dimension" -> IF ValidIndex(ev.i, Rank(ev.x)) /\ ev.n >= 0
                                  THEN <<ChangeDimension(ev.x, ev.i, ev.n)>> ELSE <<>>
  \* ---------------------------------------------------------- contraction
    [] op \in {"fold", "fold_into"} -> IF FoldOK(ev.x, ev.i, Opnd(ev), ev.j)
                                       THEN <<Fold(ev.x, ev.i, Opnd(ev), ev.j)>> ELSE <<>>
    [] op = "foldc" -> IF FoldOK(ev.x, ev.i, Opnd(ev), ev.j)
                       THEN <<FoldC(ev.x, ev.i, Opnd(ev), ev.j)>> ELSE <<>>
    [] op \in {"foldin", "foldin_into"} -> IF FoldOK(ev.x, ev.i, Opnd(ev), ev.j)
                       THEN <<FoldIn(ev.x, ev.i, Opnd(ev), ev.j)>> ELSE <<>>
    [] op \in {"mmult", "mmult_into"} -> IF FoldOK(ev.x, -1, Opnd(ev), 0)
                       THEN <<MMult(ev.x, Opnd(ev))>> ELSE <<>>
    [] op = "scprod" -> IF NElems(ev.x) = NElems(Opnd(ev)) THEN Ok(ScProd(ev.x, Opnd(ev))) ELSE <<>>
  \* ----------------------------------------------------------- arithmetic
    [] op \in {"t+t", "t+=t"} -> IF SameDims(ev) THEN <<TT("+", ev)>> ELSE <<>>
    [] op \in {"t-t", "t-=t"} -> IF SameDims(ev) THEN <<TT("-", ev)>> ELSE <<>>
    [] op \in {"t*t", "t*=t"} -> IF SameDims(ev) THEN <<TT("*", ev)>> ELSE <<>>
    [] op \in {"t/t", "t/=t"} -> IF SameDims(ev) THEN <<Sc(ev, TT("/", ev))>> ELSE <<>>
    [] op = "number" ->       \* functions of a number
         LET z == ev.n IN
         Ok(Tensor(TRUE, <<9>>, <<z, <<z[1], 0>>, <<z[2], 0>>, CConj(z), <<CMul(z, CConj(z))[1], 0>>, CMul(z, z), z, CZero, <<1, 0>>>>))
    [] op \in {"t+n", "t+=n"} -> Ok(TN("+", ev))
    [] op \in {"t-n", "t-=n"} -> Ok(TN("-", ev))
    [] op \in {"t*n", "t*=n"} -> Ok(TN("*", ev))
    [] op \in {"t/n", "t/=n"} -> Ok(Sc(ev, TN("/", ev)))
    [] op = "n+t" -> Ok(NT("+", ev))
    [] op = "n-t" -> Ok(NT("-", ev))
    [] op = "n*t" -> Ok(NT("*", ev))
    [] op = "n/t" -> Ok(Sc(ev, NT("/", ev)))
    [] op = "neg" -> Ok(Map1(ev.x.c, ev.x, CNeg))
    [] op = "conj" -> Ok(Conj(ev.x))
    [] op = "real" -> Ok(RP(ev.x))
    [] op = "imag" -> Ok(IP(ev.x))
    [] op = "to_complex" -> Ok(Tensor(TRUE, ev.x.d, ev.x.e))
    [] op = "to_complex2" -> IF SameSize(ev)
          THEN <<Tensor(TRUE, ev.x.d, [k \in 1..NElems(ev.x) |-> <<ev.x.e[k][1], ev.y.e[k][1]>>])>> ELSE <<>>
    [] op = "round" -> Ok(Map1(FALSE, ev.x, LAMBDA z :      \* input z/q, half away from zero
          LET q == Opt(ev.x, "q", 1) IN <<IF z[1] >= 0 THEN (2 * z[1] + q) \div (2 * q) ELSE -((q - 2 * z[1]) \div (2 * q)), 0>>))
  \* ----------------------------------------------------------- comparison
    [] op = "cmp_tt" -> IF SameDims(ev)
          THEN <<[k \in 1..NElems(ev.x) |-> IF ev.x.c THEN CCmp(ev.k, ev.x.e[k], Opnd(ev).e[k])
                                            ELSE FCmp(ev.k, ev.x.e[k][1], Opnd(ev).e[k][1])]>> ELSE <<>>
    [] op = "cmp_tn" -> Ok([k \in 1..NElems(ev.x) |-> FCmp(ev.k, ev.x.e[k][1], ev.n[1])])
    [] op = "cmp_nt" -> Ok([k \in 1..NElems(ev.x) |-> FCmp(ev.k, ev.n[1], ev.x.e[k][1])])
    [] op = "cmp_zn" -> Ok([k \in 1..NElems(ev.x) |-> CCmp(ev.k, ev.x.e[k], ev.n)])
    [] op = "cmp_nz" -> Ok([k \in 1..NElems(ev.x) |-> CCmp(ev.k, ev.n, ev.x.e[k])])
    [] op = "cmp_ii" -> IF Len(ev.x) = Len(ev.y) THEN <<CmpAll(ev.k, ev.x, ev.y)>> ELSE <<>>
    [] op = "cmp_in" -> Ok([k \in 1..Len(ev.x) |-> Cmp(ev.k, ev.x[k], ev.n)])
    [] op = "cmp_ni" -> Ok([k \in 1..Len(ev.x) |-> Cmp(ev.k, ev.n, ev.x[k])])
    [] op = "all_equal" -> Ok(EqAll(ev.x, Opnd(ev)))
    [] op = "vec_equal" -> Ok(SameSize(ev) /\ EqAll(Flatten(ev.x), Flatten(Opnd(ev))))
    [] op = "some_unequal" -> Ok(~EqAll(ev.x, Opnd(ev)))
    [] op = "all_equal_n" -> Ok(\A k \in 1..NElems(ev.x) : FEq(ev.x.e[k], ev.n))
    [] op \in {"all_equal_i", "gen_equal"} -> Ok(ev.x = ev.y)
    [] op = "some_unequal_i" -> Ok(ev.x # ev.y)
    [] op = "bnot" -> Ok([k \in 1..Len(ev.x) |-> ~ev.x[k]])
    [] op = "band" -> IF Len(ev.x) = Len(ev.y) THEN <<[k \in 1..Len(ev.x) |-> ev.x[k] /\ ev.y[k]]>> ELSE <<>>
    [] op = "bor" -> IF Len(ev.x) = Len(ev.y) THEN <<[k \in 1..Len(ev.x) |-> ev.x[k] \/ ev.y[k]]>> ELSE <<>>
    [] op = "all_of" -> Ok(\A k \in 1..Len(ev.x) : ev.x[k])
    [] op = "any_of" -> Ok(\E k \in 1..Len(ev.x) : ev.x[k])
    [] op = "none_of" -> Ok(\A k \in 1..Len(ev.x) : ~ev.x[k])
    [] op = "which" -> Ok(SelectSeq([k \in 1..Len(ev.x) |-> k - 1], LAMBDA k : ev.x[k + 1]))
    [] op \in {"min", "max"} /\ NElems(ev.x) = 0 -> <<>>
    [] op = "min" -> Ok(<<MinSeq(Res(ev.x.e)), 0>>)
    [] op = "max" -> Ok(<<MaxSeq(Res(ev.x.e)), 0>>)
  \* ------------------------------------------------- reductions, products
    [] op = "sum" -> Ok(Sum(ev.x))
    [] op = "trace" -> IF Rank(ev.x) = 2 THEN <<Trace(ev.x)>> ELSE <<>>
    [] op = "trace2" -> IF /\ ValidIndex(ev.i, Rank(ev.x)) /\ ValidIndex(ev.j, Rank(ev.x))
                           /\ Norm(ev.i, Rank(ev.x)) # Norm(ev.j, Rank(ev.x))
                        THEN <<TraceIx(ev.x, ev.i, ev.j)>> ELSE <<>>
    [] op = "diag" -> LET n == NElems(ev.x) + Abs(ev.w) IN Ok(Diag(ev.x, ev.w, n, n))
    [] op = "diag_rc" -> IF DiagLen(ev.w, ev.rows, ev.cols) = NElems(ev.x)
                         THEN <<Diag(ev.x, ev.w, ev.rows, ev.cols)>> ELSE <<>>
    [] op = "take_diag" /\ (\/ ~ValidIndex(ev.i, Rank(ev.x)) \/ ~ValidIndex(ev.j, Rank(ev.x))
                            \/ Norm(ev.i, Rank(ev.x)) = Norm(ev.j, Rank(ev.x))) -> <<>>
    [] op = "take_diag" -> LET a == ev.x.d[Norm(ev.i, Rank(ev.x)) + 1]
                               b == ev.x.d[Norm(ev.j, Rank(ev.x)) + 1]
                           IN IF -a < ev.w /\ ev.w < b THEN <<TakeDiag(ev.x, ev.w, ev.i, ev.j)>> ELSE <<>>
    [] op = "take_diag0" -> IF -ev.x.d[1] < ev.w /\ ev.w < ev.x.d[Rank(ev.x)]
                            THEN <<TakeDiag(ev.x, ev.w, 0, -1)>> ELSE <<>>
    [] op \in {"scale", "scale_inplace"} ->
          IF /\ ValidIndex(ev.i, Rank(ev.x)) /\ NElems(Opnd(ev)) = ev.x.d[Norm(ev.i, Rank(ev.x)) + 1]
          THEN <<Scale(ev.x, ev.i, Opnd(ev))>> ELSE <<>>
    [] op = "kron" -> IF Rank(ev.x) = Rank(Opnd(ev)) /\ Rank(ev.x) <= 2 THEN <<Kron(ev.x, Opnd(ev))>> ELSE <<>>
    [] op = "kron2" -> IF Rank(ev.x) = Rank(Opnd(ev)) /\ Rank(ev.x) <= 2 THEN <<Kron2(ev.x, Opnd(ev))>> ELSE <<>>
    [] op = "kron2_sum" -> IF Rank(ev.x) = Rank(Opnd(ev)) /\ Rank(ev.x) <= 2 THEN <<KronSum(ev.x, Opnd(ev))>> ELSE <<>>
  \* ----------------------------------------------------------- generators
    [] op \in {"iota", "indices_range"} -> Ok(Iota(ev.a, ev.b, Opt(ev, "step", 1)))
    [] op = "concat" -> Ok(ev.x \o ev.y)
    [] op = "total_size" -> Ok(Size(ev.x))
    [] op = "index_to_tensor" -> Ok(Tensor(FALSE, <<Len(ev.x)>>, [k \in 1..Len(ev.x) |-> <<ev.x[k], 0>>]))
    \* zeros(n) and ones(n) are square matrices, as in Matlab
    [] op = "gen" /\ Len(ev.d) = 1 /\ Opt(ev, "how", 0) = 1 /\ ev.k # "eye" ->
          Ok(Const(ev.c, <<ev.d[1], ev.d[1]>>, IF ev.k = "ones" THEN COne ELSE CZero))
    [] op = "gen" -> Ok(CASE ev.k = "zeros" -> Const(ev.c, ev.d, CZero)
                          [] ev.k = "ones" -> Const(ev.c, ev.d, COne)
                          [] ev.k = "eye" -> Eye(ev.c, ev.d[1], ev.d[Len(ev.d)]))
    [] op = "listgen" -> Ok(IF ev.k = "i" THEN ev.e ELSE Tensor(ev.k = "z", <<Len(ev.e)>>, ev.e))
    [] op = "listgen_dims" -> IF Size(ev.d) = Len(ev.e) THEN <<Tensor(FALSE, ev.d, ev.e)>> ELSE <<>>

(* ------------------------------------------ results that are not functions *)
(* scaled values: the harness multiplies by sc and rounds                     *)
AllNear(r, d, n, F(_), tol) ==
  /\ r.d = d /\ Len(r.e) = n
  /\ \A k \in 1..n : CNear(r.e[k], F(k), tol)
(* v = sc s/q, up to rounding                                                  *)
NearQuot(v, s, q, sc) == Near(v, sc * (s \div q) + (sc * (s % q)) \div q, 1)
(* v = sc sqrt(n), up to rounding                                              *)
RootOf(v, n, sc) == IF sc = 1 THEN v >= 0 /\ v * v = n
                    ELSE IF sc # 1048576 THEN IsRootOf(v, n, sc)
                    ELSE /\ v >= 0 /\ v < 45 * sc
                         /\ Near(FMul(v, v, 10), n * sc, 4 + 2 * (v \div sc))
(* |z| for the elements of the harness whose absolute value is an integer      *)
IntAbs(z) == CHOOSE n \in 0..(Abs(z[1]) + Abs(z[2])) : n * n = CNorm2(z)
NormInf2(t) ==   \* matrix infinity norm
  LET row(i) == SumSeq([j \in 1..t.d[2] |-> IntAbs(At(t, <<i - 1, j - 1>>))])
  IN IF t.d[1] = 0 THEN 0 ELSE MaxSeq([i \in 1..t.d[1] |-> row(i)])

Special(ev) ==
  LET r == ev.r
      op == ev.op
  IN CASE op = "abs" ->    \* |z| of each element, fixed point
            /\ r.v.c = FALSE /\ r.v.d = ev.x.d /\ Len(r.v.e) = NElems(ev.x)
            /\ \A k \in 1..NElems(ev.x) : RootOf(r.v.e[k][1], CNorm2(ev.x.e[k]), ev.sc) /\ r.v.e[k][2] = 0
       [] op = "norm0" -> IF NElems(ev.x) = 0 THEN r.v[1] = 0
            ELSE RootOf(r.v[1], MaxSeq([k \in 1..NElems(ev.x) |-> CNorm2(ev.x.e[k])]), ev.sc)
       [] op = "norm2" -> RootOf(r.v[1], SumSeq([k \in 1..NElems(ev.x) |-> CNorm2(ev.x.e[k])]), ev.sc)
       [] op = "matrix_norminf" -> r.v = <<NormInf2(ev.x), 0>>
       [] op = "mean" -> /\ NearQuot(r.v[1], Sum(ev.x)[1], NElems(ev.x), ev.sc)
                         /\ NearQuot(r.v[2], Sum(ev.x)[2], NElems(ev.x), ev.sc)
       [] op = "mean_ndx" ->
            LET m == MeanIx(ev.x, ev.i)
                q == ev.x.d[Norm(ev.i, Rank(ev.x)) + 1]
                dd == IF Rank(ev.x) = 1 THEN <<1>> ELSE m.d
                e == IF Rank(ev.x) = 1 THEN <<Sum(ev.x)>> ELSE m.e
            IN /\ r.v.c = ev.x.c /\ r.v.d = dd /\ Len(r.v.e) = Len(e)
               /\ \A k \in 1..Len(e) : /\ NearQuot(r.v.e[k][1], e[k][1], q, ev.sc)
                                       /\ NearQuot(r.v.e[k][2], e[k][2], q, ev.sc)
       [] op = "linspace" ->
            /\ r.v.c = ev.nc /\ r.v.d = <<ev.n>> /\ Len(r.v.e) = ev.n
            /\ \A k \in 1..ev.n :
                 IF ev.n = 1 THEN r.v.e[k] = CScale(ev.ss, ev.a)
                 ELSE LET L == LinScaled(ev.a, ev.b, ev.n, k - 1)
                      IN /\ NearQuot(r.v.e[k][1], L[1], ev.n - 1, ev.ss)
                         /\ NearQuot(r.v.e[k][2], L[2], ev.n - 1, ev.ss)
            /\ (ev.n > 1 => r.v.e[1] = CScale(ev.ss, ev.a) /\ r.v.e[ev.n] = CScale(ev.ss, ev.b))
       [] op = "linspace_t" ->
            LET y == Opnd(ev)
                m == NElems(ev.x)
            IN /\ r.v.c = ev.x.c /\ r.v.d = (IF m = 1 THEN <<ev.n>> ELSE ev.x.d \o <<ev.n>>) /\ Len(r.v.e) = m * ev.n
               /\ \A k \in 1..ev.n : \A q \in 1..m :
                    LET v == r.v.e[q + (k - 1) * m] IN
                    IF ev.n = 1 THEN v = CScale(ev.ss, ev.x.e[q])
                    ELSE LET L == LinScaled(ev.x.e[q], y.e[q], ev.n, k - 1)
                         IN /\ NearQuot(v[1], L[1], ev.n - 1, ev.ss)
                            /\ NearQuot(v[2], L[2], ev.n - 1, ev.ss)
       [] op \in {"sort", "sort_i"} ->
            LET s == IF op = "sort" THEN Res(r.v.e) ELSE r.v
                x == IF op = "sort" THEN Res(ev.x.e) ELSE ev.x
            IN /\ SameBag(x, s)
               /\ IF Opt(ev, "rev", FALSE) THEN Descending(s) ELSE Ascending(s)
               /\ (op = "sort" => r.v.d = ev.x.d)
       [] op \in {"sort_indices", "sort_indices_i"} ->
            LET x == IF op = "sort_indices" THEN Res(ev.x.e) ELSE ev.x
                p == r.v
            IN /\ Len(p) = Len(x) /\ IsPermutation(p)
               /\ LET s == [k \in 1..Len(p) |-> x[p[k] + 1]]
                  IN IF Opt(ev, "rev", FALSE) THEN Descending(s) ELSE Ascending(s)
       [] op = "umap" ->   \* the tensor function maps the scalar function (table t)
            /\ r.v.c = r.t.c /\ r.v.d = ev.x.d /\ Len(r.v.e) = Len(r.t.e)
            /\ \A k \in 1..Len(r.t.e) : CNear(r.v.e[k], r.t.e[k], 4)

SpecialOps == {"abs", "norm0", "norm2", "matrix_norminf", "mean", "mean_ndx", "linspace", "linspace_t", "sort",
               "sort_i", "sort_indices", "sort_indices_i", "umap"}

Good(ev) == IF Opt(ev, "reject", FALSE) THEN Rejected(ev.r)
            ELSE IF ev.op \in SpecialOps THEN Returned(ev.r) /\ Special(ev)
            ELSE LET x == Exp(ev)
                 IN IF x = <<>> THEN Rejected(ev.r)
                    ELSE Returned(ev.r) /\ ev.r.v = x[1]

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ IF Good(Events[i']) THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id>>)
Spec == Init /\ [][Next]_i
=============================================================================
