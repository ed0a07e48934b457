-------------------------------- MODULE Num --------------------------------
(* Numbers of the specification: Gaussian integers <<re, im>>.  All inputs   *)
(* that the conformance harness generates are (scaled) integers, on which    *)
(* IEEE double arithmetic is exact, so the library must produce exactly the  *)
(* results computed here.                                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
MaxSeq(s)  == FoldLeft(LAMBDA a, b : Max2(a, b), s[1], s)
MinSeq(s)  == FoldLeft(LAMBDA a, b : Min2(a, b), s[1], s)

CZero == <<0, 0>>
COne  == <<1, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
(* numbers travel as integers, with a few codes for what is not one           *)
NaN  == 2000000003
Inf  == 2000000001
Neg(x) == IF x = NaN THEN x ELSE -x
CNeg(a)    == <<Neg(a[1]), Neg(a[2])>>
CConj(a)   == <<a[1], Neg(a[2])>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
CSum(s)    == FoldLeft(CAdd, CZero, s)
CNorm2(a)  == a[1] * a[1] + a[2] * a[2]

(* q = a / b exactly, for b a divisor of a (the generator makes sure)        *)
ExactDiv(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
CDiv(a, b) == LET n == CNorm2(b)
                  p == CMul(a, CConj(b))
              IN <<ExactDiv(p[1], n), ExactDiv(p[2], n)>>
CDivides(a, b) == LET n == CNorm2(b)
                      p == CMul(a, CConj(b))
                  IN n # 0 /\ Abs(p[1]) % n = 0 /\ Abs(p[2]) % n = 0

(* |v - sqrt(n)*s| <= 1, for fixed-point results v of scale s                 *)
IsRootOf(v, n, s) == /\ v >= 0
                     /\ (v + 1) * (v + 1) >= n * s * s
                     /\ (v = 0 \/ (v - 1) * (v - 1) <= n * s * s)
Near(a, b, tol) == b - tol <= a /\ a <= b + tol
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
=============================================================================
