------------------------------- MODULE Linalg -------------------------------
(* Matrices with integer elements (what the library is given) and in fixed    *)
(* point, units of 2^-20 (what it answers), and the equations that define     *)
(* solutions, decompositions, eigenvalues and matrix functions.  A matrix is  *)
(* [c, d = <<rows, columns>>, e] with complex elements, column-major.         *)
EXTENDS Fix

H == 10
One == 1048576

Rows(A) == A.d[1]
Cols(A) == A.d[2]
IsMat(A) == Len(A.d) = 2
Square(A) == IsMat(A) /\ A.d[1] = A.d[2] /\ A.d[1] > 0
El(A, i, j) == A.e[i + A.d[1] * (j - 1)]
MatOf(c, n, m, f(_, _)) ==
  [c |-> c, d |-> <<n, m>>, e |-> [k \in 1..(n * m) |-> f(((k - 1) % n) + 1, ((k - 1) \div n) + 1)]]
Adj(A) == MatOf(A.c, A.d[2], A.d[1], LAMBDA i, j : CConj(El(A, j, i)))
Tr(A) == MatOf(A.c, A.d[2], A.d[1], LAMBDA i, j : El(A, j, i))
(* a tensor of any rank as a matrix with n rows                               *)
AsMat(X, n) == [X EXCEPT !.d = <<n, Len(X.e) \div n>>]
Col(A, j) == MatOf(A.c, A.d[1], 1, LAMBDA i, q : El(A, i, j))
TakeCols(A, k) == MatOf(A.c, A.d[1], k, LAMBDA i, j : El(A, i, j))
TakeRows(A, k) == MatOf(A.c, k, A.d[2], LAMBDA i, j : El(A, i, j))

Times(A, B, mul(_, _)) ==
  MatOf(A.c \/ B.c, A.d[1], B.d[2], LAMBDA i, j : CSum([l \in 1..A.d[2] |-> mul(El(A, i, l), El(B, l, j))]))
FM(a, b) == IF a[2] = 0 /\ b[2] = 0 THEN <<FMul(a[1], b[1], H), 0>> ELSE FCMul(a, b, H)
IM(a, b) == IF a[2] = 0 /\ b[2] = 0 THEN <<a[1] * b[1], 0>> ELSE CMul(a, b)
IntTimes(A, B) == Times(A, B, IM)       \* one of them with integer elements
FixTimes(A, B) == Times(A, B, FM)       \* both in fixed point

Diag(c, n, f(_)) == MatOf(c, n, n, LAMBDA i, j : IF i = j THEN f(i) ELSE CZero)
Id(c, n, v) == Diag(c, n, LAMBDA i : <<v, 0>>)
ColScale(A, f(_)) == [A EXCEPT !.e = [k \in 1..Len(A.e) |-> FM(A.e[k], f(((k - 1) \div A.d[1]) + 1))]]
RowScale(A, f(_)) == [A EXCEPT !.e = [k \in 1..Len(A.e) |-> FM(A.e[k], f(((k - 1) % A.d[1]) + 1))]]
Lift(A) == [A EXCEPT !.e = [k \in 1..Len(A.e) |-> CScale(One, A.e[k])]]

(* nothing a correct answer contains exceeds b: keeps the products below in   *)
(* range, whatever the library answers                                        *)
Bounded(X, b) == \A k \in 1..Len(X.e) : Abs(X.e[k][1]) <= b /\ Abs(X.e[k][2]) <= b
Shape(X, c, d) == X.c = c /\ X.d = d /\ Len(X.e) = ProdSeq(d)
NearMat(X, Y, tol) == Len(X.e) = Len(Y.e) /\ \A k \in 1..Len(X.e) : CNear(X.e[k], Y.e[k], tol)
MaxAbs(X) == FoldLeft(LAMBDA a, z : Max2(a, Max2(Abs(z[1]), Abs(z[2]))), 0, X.e)

OrthoCols(U) == NearMat(FixTimes(Adj(U), U), Id(U.c, Cols(U), One), 16 + 8 * Rows(U))
OrthoRows(V) == NearMat(FixTimes(V, Adj(V)), Id(V.c, Rows(V), One), 16 + 8 * Cols(V))

-----------------------------------------------------------------------------
(* singular values: k of them, not negative, decreasing                       *)
SvOK(A, s) ==
  /\ Shape(s, FALSE, <<Min2(Rows(A), Cols(A))>>)
  /\ Bounded(s, 256 * One)
  /\ \A l \in 1..Len(s.e) : s.e[l][1] >= 0 /\ s.e[l][2] = 0 /\ (l > 1 => s.e[l][1] <= s.e[l - 1][1])
UShape(A, U, ec) == Shape(U, A.c, <<Rows(A), IF ec THEN Min2(Rows(A), Cols(A)) ELSE Rows(A)>>) /\ Bounded(U, One + 16)
VShape(A, V, ec) == Shape(V, A.c, <<IF ec THEN Min2(Rows(A), Cols(A)) ELSE Cols(A), Cols(A)>>) /\ Bounded(V, One + 16)
SvdTol(A, s) == (8 + 4 * (s.e[1][1] \div One)) * (Rows(A) + Cols(A))

(* A = U diag(s) V, orthonormal factors                                       *)
SvdOK(A, s, U, V, ec) ==
  LET k == Min2(Rows(A), Cols(A)) IN
  /\ SvOK(A, s) /\ UShape(A, U, ec) /\ VShape(A, V, ec)
  /\ OrthoCols(U) /\ OrthoRows(V)
  /\ NearMat(FixTimes(ColScale(TakeCols(U, k), LAMBDA l : s.e[l]), TakeRows(V, k)), Lift(A), SvdTol(A, s))

(* units of 2^-12, for squares                                                *)
Low(X) == [X EXCEPT !.e = [k \in 1..Len(X.e) |-> <<(X.e[k][1] + 128) \div 256, (X.e[k][2] + 128) \div 256>>]]
LM(a, b) == FCMul(a, b, 6)
(* one factor alone: orthonormal, and the columns of W = A^H U (of A V^H) are *)
(* orthogonal, their lengths the singular values                              *)
HalfOK(A, s, W) ==
  LET w == Low(W)
      k == Min2(Rows(A), Cols(A))
      q == s.e[1][1] \div One
  IN NearMat(Times(Adj(w), w, LM),
             Diag(TRUE, Cols(W), LAMBDA i : IF i <= k THEN LM(Low(s).e[i], Low(s).e[i]) ELSE CZero),
             (8 * q + 16) * Rows(W))
UOnlyOK(A, s, U, ec) == UShape(A, U, ec) /\ OrthoCols(U) /\ HalfOK(A, s, IntTimes(Adj(A), U))
VOnlyOK(A, s, V, ec) == VShape(A, V, ec) /\ OrthoRows(V) /\ HalfOK(A, s, IntTimes(A, Adj(V)))
SameValues(A, s, t) == SvOK(A, t) /\ NearMat(s, t, 16 + (s.e[1][1] \div One))

-----------------------------------------------------------------------------
(* Known spectra: integer matrices with A P = P B, Q P = q 1, B block upper   *)
(* triangular with 1x1 blocks and 2x2 blocks [a -b; b a]                      *)
Witness(A, w) ==
  /\ IntTimes(A, w.p).e = IntTimes(w.p, w.b).e
  /\ w.q # 0 /\ IntTimes(w.pi, w.p).e = [k \in 1..Len(A.e) |-> CScale(w.q, Id(A.c, Rows(A), 1).e[k])]
  /\ \A i, j \in 1..Rows(A) : i > j + 1 => El(w.b, i, j) = CZero
  /\ \A i \in 1..(Rows(A) - 1) : El(w.b, i + 1, i) # CZero =>
        /\ El(w.b, i, i) = El(w.b, i + 1, i + 1) /\ El(w.b, i, i + 1) = CNeg(El(w.b, i + 1, i))
        /\ El(w.b, i, i)[2] = 0 /\ El(w.b, i + 1, i)[2] = 0
        /\ (i > 1 => El(w.b, i, i - 1) = CZero)
Spectrum(w) ==
  [i \in 1..Rows(w.b) |->
     IF i < Rows(w.b) /\ El(w.b, i + 1, i) # CZero THEN <<El(w.b, i, i)[1], El(w.b, i + 1, i)[1]>>
     ELSE IF i > 1 /\ El(w.b, i, i - 1) # CZero THEN <<El(w.b, i, i)[1], -(El(w.b, i, i - 1)[1])>>
     ELSE El(w.b, i, i)]

(* the values (fixed point) are exactly the spectrum (integers), each as many *)
(* times as it must be                                                        *)
Count(s, P(_)) == Cardinality({k \in 1..Len(s) : P(s[k])})
SameSpectrum(vals, sp, tol) ==
  /\ Len(vals) = Len(sp)
  /\ \A i \in 1..Len(sp) :
       Count(vals, LAMBDA v : CNear(v, CScale(One, sp[i]), tol)) = Count(sp, LAMBDA z : z = sp[i])

(* A R = R D, R^.. of nonzero columns                                         *)
NonZeroCols(R) == \A j \in 1..Cols(R) : \E i \in 1..Rows(R) : Abs(El(R, i, j)[1]) + Abs(El(R, i, j)[2]) > One \div (4 * Rows(R))
EigTol(A) == 64 + 8 * Rows(A) * (MaxAbs(A) + 4)
RightOK(A, w, R) ==
  /\ Shape(R, R.c, A.d) /\ Bounded(R, 2 * One) /\ NonZeroCols(R)
  /\ NearMat(IntTimes(A, R), ColScale(R, LAMBDA j : w.e[j]), EigTol(A))
(* L^H A = D L^H                                                              *)
LeftOK(A, w, L) ==
  /\ Shape(L, L.c, A.d) /\ Bounded(L, 2 * One) /\ NonZeroCols(L)
  /\ LET M == Adj(L) IN NearMat(IntTimes(M, A), RowScale(M, LAMBDA j : w.e[j]), EigTol(A))
Trace(A) == CSum([i \in 1..Rows(A) |-> El(A, i, i)])
TraceOK(A, w) == CNear(CSum(w.e), CScale(One, Trace(A)), 64 + 16 * Rows(A) * (MaxAbs(A) + 4))
ValuesOK(A, w, c) == Shape(w, c, <<Rows(A)>>) /\ Bounded(w, 200 * One) /\ TraceOK(A, w)

-----------------------------------------------------------------------------
(* Least squares: A^H (A X - B) = 0, X (units 2^-20) without components in    *)
(* the null space of A, whose basis (integers) is the columns of z            *)
Half4(X) == [X EXCEPT !.e = [k \in 1..Len(X.e) |-> <<(X.e[k][1] + 8) \div 16, (X.e[k][2] + 8) \div 16>>]]
Minus(X, Y) == [X EXCEPT !.e = [k \in 1..Len(X.e) |-> CSub(X.e[k], Y.e[k])]]
Zero(X, tol) == \A k \in 1..Len(X.e) : CNear(X.e[k], CZero, tol)
LeastSquares(A, X, B) ==
  LET R == Minus(IntTimes(A, X), Lift(B)) IN
  /\ Bounded(R, 64 * One)
  /\ Zero(IntTimes(Adj(A), Half4(R)), 16 + (2 + MaxAbs(A)) * MaxAbs(A) * Rows(A))
MinimalNorm(A, X, z) ==
  /\ Zero(IntTimes(A, z), 0)
  /\ Zero(IntTimes(Adj(z), X), 16 + Rows(z) * MaxAbs(z))

(* A x = b, x in units of 2^-20                                               *)
Solves(A, X, B, tol) == NearMat(IntTimes(A, X), Lift(B), tol)

(* Answers come with 16 bits more (field l).  Where an equation has integer    *)
(* coefficients only, its residual is R (units of the answer) plus that of the *)
(* bits below: it must vanish to tol, in units 2^-16 smaller.                  *)
Lower(X) == [X EXCEPT !.e = X.l]
LowOK(X) == Len(X.l) = Len(X.e) /\ \A k \in 1..Len(X.l) : Abs(X.l[k][1]) <= 32769 /\ Abs(X.l[k][2]) <= 32769
Small(A) == MaxAbs(A) * Cols(A) <= 16384
Vanishes(R, S, tol) ==
  \A k \in 1..Len(R.e) : \A q \in 1..2 : Abs(R.e[k][q]) <= 16000 /\ Abs(R.e[k][q] * 65536 + S.e[k][q]) <= tol
(* A X = B one, closely                                                        *)
Closely(A, X, B, one, tol) ==
  /\ LowOK(X)
  /\ (Small(A) /\ MaxAbs(A) * Cols(A) * (MaxAbs(X) \div One + 1) <= 1000) => Vanishes(Minus(IntTimes(A, X), [B EXCEPT !.e = [k \in 1..Len(B.e) |-> CScale(one, B.e[k])]]), IntTimes(A, Lower(X)), tol)
CloseTol(A) == 64 + 2 * Cols(A) * MaxAbs(A)
(* the number h, l is the integer z                                            *)
CloseTo(h, l, z, tol) ==
  \A q \in 1..2 : Abs(h[q] - One * z[q]) <= 16000 /\ Abs((h[q] - One * z[q]) * 65536 + l[q]) <= tol
Shifted(A, z) == [A EXCEPT !.e = [k \in 1..Len(A.e) |-> IF (k - 1) % (Rows(A) + 1) = 0 THEN CSub(A.e[k], z) ELSE A.e[k]]]
(* the values are closely those of the spectrum, the columns of R closely      *)
(* eigenvectors                                                                *)
CloseValues(w, sp, tol) == LowOK(w) /\ \A j \in 1..Len(w.e) : \E k \in 1..Len(sp) : CloseTo(w.e[j], w.l[j], sp[k], tol)
Nearest(v, sp) == CHOOSE z \in {sp[k] : k \in 1..Len(sp)} : CNear(v, CScale(One, z), 16000)
CloseVectors(A, w, sp, R, tol) ==
  LowOK(R) /\ \A j \in 1..Cols(R) :
    LET B == Shifted(A, Nearest(w.e[j], sp)) IN
    Small(B) => Vanishes(IntTimes(B, Col(R, j)), IntTimes(B, Col(Lower(R), j)), tol)
ClosePairs(A, w, sp, R) == CloseValues(w, sp, 1024) /\ CloseVectors(A, w, sp, R, 1024 + 4 * Rows(A) * MaxAbs(A))

-----------------------------------------------------------------------------
(* Eigenpairs                                                                 *)
Norm2(X) == SumSeq([k \in 1..Len(X.e) |-> FMul(X.e[k][1], X.e[k][1], H) + FMul(X.e[k][2], X.e[k][2], H)])
Unit(X) == Bounded(X, One + 64) /\ Near(Norm2(X), One, 64 + 8 * Len(X.e))
EigenVector(A, v, l, tol) ==
  NearMat(IntTimes(A, v), [v EXCEPT !.e = [k \in 1..Len(v.e) |-> FM(v.e[k], l)]], tol)

(* the dominant eigenvalue: twice as large as any other                       *)
Dominant(w) ==
  LET sp == Spectrum(w) IN
  CHOOSE i \in 1..Len(sp) : \A j \in 1..Len(sp) : j # i => CNorm2(sp[i]) >= 4 * CNorm2(sp[j]) /\ CNorm2(sp[i]) > 0
HasDominant(w) ==
  LET sp == Spectrum(w) IN
  \E i \in 1..Len(sp) : \A j \in 1..Len(sp) : j # i => CNorm2(sp[i]) >= 4 * CNorm2(sp[j]) /\ CNorm2(sp[i]) > 0

(* which eigenvalues come first                                               *)
Key(t, z) ==
  CASE t = 0 -> CNorm2(z) [] t = 1 -> -CNorm2(z)
    [] t = 2 -> z[1] [] t = 3 -> -z[1]
    [] t = 4 -> z[2] [] t = 5 -> -z[2]
Same(v, z) == CNear(v, CScale(One, z), 512)
(* k values of the spectrum, none of those left out before one of those given *)
Extreme(vals, sp, t) ==
  LET given(z) == Count(vals, LAMBDA v : Same(v, z))
      mult(z) == Count(sp, LAMBDA y : y = z)
  IN /\ \A j \in 1..Len(vals) : \E i \in 1..Len(sp) : Same(vals[j], sp[i])
     /\ \A i \in 1..Len(sp) : given(sp[i]) <= mult(sp[i])
     /\ \A i, j \in 1..Len(sp) : (given(sp[i]) < mult(sp[i]) /\ given(sp[j]) > 0) => Key(t, sp[i]) <= Key(t, sp[j])

-----------------------------------------------------------------------------
(* The exponential of A = a/q by its series, units of 2^-20                   *)
MaxSum(A) == FoldLeft(Max2, 0, [i \in 1..Rows(A) |-> SumSeq([j \in 1..Cols(A) |-> Abs(El(A, i, j)[1]) + Abs(El(A, i, j)[2])])])
RECURSIVE ExpSum(_, _, _, _)
ExpSum(F, X, S, k) ==
  IF k > 32 \/ Zero(X, 0) THEN S
  ELSE LET Y == FixTimes(F, X)
           Z == [Y EXCEPT !.e = [m \in 1..Len(Y.e) |-> <<(Y.e[m][1] + k \div 2) \div k, (Y.e[m][2] + k \div 2) \div k>>]]
       IN ExpSum(F, Z, [S EXCEPT !.e = [m \in 1..Len(S.e) |-> CAdd(S.e[m], Z.e[m])]], k + 1)
Exp(A, q) ==
  LET F == [A EXCEPT !.e = [k \in 1..Len(A.e) |-> CScale(One \div q, A.e[k])]]
      I == Id(A.c, Rows(A), One)
  IN ExpSum(F, I, I, 1)
ExpTol(A, q) == 512 * P2(((MaxSum(A) * 3) \div (2 * q)) + 1)

(* nilpotent matrices: 24 exp(A), exactly                                     *)
RECURSIVE Power(_, _)
Power(A, k) == IF k = 0 THEN Id(A.c, Rows(A), 1) ELSE IntTimes(A, Power(A, k - 1))
Nilpotent(A) == Zero(Power(A, Rows(A)), 0)
Exp24(A) == [A EXCEPT !.e = [m \in 1..Len(A.e) |->
   CSum([k \in 1..Min2(5, Rows(A)) |-> CScale(CASE k = 1 -> 24 [] k = 2 -> 24 [] k = 3 -> 12 [] k = 4 -> 4 [] k = 5 -> 1, Power(A, k - 1).e[m])])]]

(* matrices of large norm that are similar to rotations and decays: each      *)
(* eigenvalue is far below zero (real part at most -25: nothing is left of it) *)
(* or -k + i w with k <= 3, |w| <= 2000                                       *)
RECURSIVE ExpMinus(_)
ExpMinus(k) == IF k = 0 THEN One ELSE FMul(385750, ExpMinus(k - 1), H)      \* exp(-1) = 0.3678794
(* <<cos w, sin w>> of an integer angle: w - 2 pi k, then quarters of a turn   *)
RECURSIVE Turn(_, _)
Turn(t, m) == IF m = 0 THEN (IF t < 0 THEN LET v == Series(-t) IN <<v[1], -v[2]>> ELSE Series(t))
              ELSE LET v == Turn(t, m - 1) IN <<-v[2], v[1]>>
RECURSIVE Angle(_)
Angle(w) ==
  IF w < 0 THEN LET v == Angle(-w) IN <<v[1], -v[2]>>
  ELSE LET k == (w * 1000) \div 6283
           t == (w * One - k * 6588397) - (k * 316) \div 1000
           m == (t + 823550) \div 1647099
       IN Turn(t - m * 1647099 - m \div 3, m % 4)
ASSUME /\ CNear(Angle(355), <<-One, -32>>, 2) /\ CNear(Angle(2000), <<-385309, 975217>>, 3)
       /\ CNear(Angle(-1), <<566548, -882346>>, 2)
ExpOf(z) == IF z[1] <= -25 THEN CZero
            ELSE LET v == Angle(z[2]) IN <<FMul(ExpMinus(-z[1]), v[1], H), FMul(ExpMinus(-z[1]), v[2], H)>>
Decaying(w) ==
  /\ MaxAbs(w.p) <= 4 /\ Rows(w.b) <= 4
  /\ \A i, j \in 1..Rows(w.b) : i = j \/ El(w.b, i, j) = CZero \/ El(w.b, j, i) = CNeg(El(w.b, i, j))
  /\ \A z \in {Spectrum(w)[i] : i \in 1..Rows(w.b)} : z[1] <= -25 \/ (z[1] \in -3..0 /\ Abs(z[2]) <= 2000)
(* exp(B): the blocks [a -b; b a] become exp(a) [cos b -sin b; sin b cos b]    *)
ExpBlocks(w) ==
  LET s == Spectrum(w) IN
  MatOf(w.b.c, Rows(w.b), Rows(w.b), LAMBDA i, j :
    LET pair == \/ i < Rows(w.b) /\ El(w.b, i + 1, i) # CZero
                \/ i > 1 /\ El(w.b, i, i - 1) # CZero
        f == ExpOf(s[i])
    IN IF i = j THEN (IF pair THEN <<f[1], 0>> ELSE f)
       ELSE IF El(w.b, i, j) = CZero THEN CZero
       ELSE <<-f[2], 0>>)       \* (below the diagonal s[i] is the conjugate)
DecayedOK(E, w) ==
  Bounded(E, 20 * One) /\ NearMat(IntTimes(E, w.p), IntTimes(w.p, ExpBlocks(w)), 16 + 8 * Rows(w.b) * MaxAbs(w.p))
=============================================================================
