-------------------------------- MODULE Fix --------------------------------
(* Fixed-point numbers for the numerical properties: the library works with   *)
(* floating point, its results travel as integers v*2^(2h), and the equations *)
(* they must satisfy are evaluated here with 32-bit integers.  The product    *)
(* splits its factors in halves so that nothing overflows: |a*b| < 2^(31-2h). *)
EXTENDS Num

P2(k) == 2 ^ k
FMul(a, b, h) ==
  LET q == P2(h)
      ah == a \div q      al == a % q
      bh == b \div q      bl == b % q
  IN ah * bh + (ah * bl + al * bh + ((al * bl) \div q) + q \div 2) \div q

FCMul(a, b, h) == <<FMul(a[1], b[1], h) - FMul(a[2], b[2], h), FMul(a[1], b[2], h) + FMul(a[2], b[1], h)>>

(* cosine and sine of 2 pi a/b, 0 <= a <= b/8, in units of 2^-20              *)
Series(t) ==
  LET t2 == FMul(t, t, 10)
      c == 1048576 - FMul(t2, 524288 - FMul(t2, 43691 - FMul(t2, 1456 - t2 \div 40320, 10), 10), 10)
      s == FMul(t, 1048576 - FMul(t2, 174763 - FMul(t2, 8738 - FMul(t2, 208, 10), 10), 10), 10)
  IN <<c, s>>
RECURSIVE CosSin(_, _)
CosSin(a, b) ==
  LET m == a % b IN
  IF 2 * m > b THEN LET v == CosSin(b - m, b) IN <<v[1], -v[2]>>
  ELSE IF 4 * m > b THEN LET v == CosSin(b - 2 * m, 2 * b) IN <<-v[1], v[2]>>
  ELSE IF 8 * m > b THEN LET v == CosSin(b - 4 * m, 4 * b) IN <<v[2], v[1]>>
  ELSE Series((6588397 * m) \div b)

(* twiddle factors exp(2 pi i k/n), k = 0..n-1, in units of 2^-16             *)
Lengths == 1..20 \cup {32, 45, 64, 97, 100, 121, 127, 143, 169, 187, 242, 256}
Tw == [n \in Lengths |-> [k \in 1..n |-> LET v == CosSin(k - 1, n) IN <<(v[1] + 8) \div 16, (v[2] + 8) \div 16>>]]

ASSUME \A n \in Lengths : \A k \in 1..n :
  LET w == Tw[n][k] IN
  /\ Near(FMul(w[1], w[1], 8) + FMul(w[2], w[2], 8), 65536, 3)
  /\ LET u == Tw[n][2 * k - 1 - (IF 2 * k - 1 > n THEN n ELSE 0)]      \* doubling the angle
     IN CNear(FCMul(w, w, 8), u, 4)
ASSUME Tw[4] = <<<<65536, 0>>, <<0, 65536>>, <<-65536, 0>>, <<0, -65536>>>>
ASSUME Tw[8][2] = <<46341, 46341>>
=============================================================================
