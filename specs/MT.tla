--------------------------------- MODULE MT ---------------------------------
(* The Mersenne Twister of Matsumoto and Nishimura, for words of 64 (2004) and *)
(* 32 (2002) bits, from its definition by recurrence:                           *)
(*     x[k+n] = x[k+m] xor (upper(x[k]) | lower(x[k+1])) A                       *)
(* Words are sequences of 16-bit limbs, least significant first.                *)
EXTENDS Num, Bitwise

B16 == 65536
Pow2 == [k \in 0..30 |-> 2^k]
XorW(a, b) == [k \in 1..Len(a) |-> a[k] ^^ b[k]]
AndW(a, b) == [k \in 1..Len(a) |-> a[k] & b[k]]
Limb(a, k) == IF k >= 1 /\ k <= Len(a) THEN a[k] ELSE 0
ShR(a, n) == LET q == n \div 16
                 r == n % 16
             IN [k \in 1..Len(a) |-> Limb(a, k + q) \div Pow2[r] + (Limb(a, k + q + 1) % Pow2[r]) * Pow2[16 - r]]
ShL(a, n) == LET q == n \div 16
                 r == n % 16
             IN [k \in 1..Len(a) |-> (Limb(a, k - q) % Pow2[16 - r]) * Pow2[r] + Limb(a, k - q - 1) \div Pow2[16 - r]]
(* modulo the length of the words                                                *)
Carry(s) == LET f == FoldLeft(LAMBDA acc, x : <<(acc[1] + x) \div B16, Append(acc[2], (acc[1] + x) % B16)>>, <<0, <<>>>>, s) IN f[2]
Add(a, b) == Carry([k \in 1..Len(a) |-> a[k] + b[k]])
Bytes(a) == [k \in 1..(2 * Len(a)) |-> IF k % 2 = 1 THEN a[(k + 1) \div 2] % 256 ELSE a[k \div 2] \div 256]
Mul(a, b) ==
  LET x == Bytes(a)
      y == Bytes(b)
      n == Len(x)
      col == [k \in 1..n |-> SumSeq([j \in 1..k |-> x[j] * y[k + 1 - j]])]
      c == FoldLeft(LAMBDA acc, v : <<(acc[1] + v) \div 256, Append(acc[2], (acc[1] + v) % 256)>>, <<0, <<>>>>, col)[2]
  IN [k \in 1..Len(a) |-> c[2 * k - 1] + 256 * c[2 * k]]
OfInt(n, len) == [k \in 1..len |-> IF k = 1 THEN n % B16 ELSE IF k = 2 THEN (n \div B16) % B16 ELSE IF n < 0 THEN 65535 ELSE 0]
Less(a, b) == LET d == {k \in 1..Len(a) : a[k] # b[k]}
              IN d # {} /\ LET k == CHOOSE j \in d : \A i \in d : i <= j IN a[k] < b[k]
Minus(a, b) == LET f == FoldLeft(LAMBDA acc, k : LET v == a[k] - b[k] - acc[1]
                                               IN <<IF v < 0 THEN 1 ELSE 0, Append(acc[2], v % B16)>>, <<0, <<>>>>, [k \in 1..Len(a) |-> k])
               IN f[2]
(* a mod n, for 0 < n <= 2^29                                                    *)
Bit(a, k) == (a[(k \div 16) + 1] \div Pow2[k % 16]) % 2
Mod(a, n) == LET m == 16 * Len(a)
             IN FoldLeft(LAMBDA r, k : (2 * r + Bit(a, m - k)) % n, 0, [k \in 1..m |-> k])

(* the parameters of both generators                                            *)
P64 == [limbs |-> 4, n |-> 312, m |-> 156, w |-> 64,
        a |-> <<6633, 43366, 28506, 46338>>,           \* B5026F5AA96619E9
        f |-> <<32557, 19605, 62509, 22609>>,          \* 6364136223846793005 = 5851F42D4C957F2D
        upper |-> <<0, 32768, 65535, 65535>>, lower |-> <<65535, 32767, 0, 0>>,
        u |-> 29, d |-> <<21845, 21845, 21845, 21845>>,
        s |-> 17, b |-> <<0, 60838, 32767, 29142>>,    \* 71D67FFFEDA60000
        t |-> 37, c |-> <<0, 0, 61152, 65527>>,        \* FFF7EEE000000000
        l |-> 43]
P32 == [limbs |-> 2, n |-> 624, m |-> 397, w |-> 32,
        a |-> <<45279, 39176>>,                        \* 9908B0DF
        f |-> <<35173, 27655>>,                        \* 1812433253 = 6C078965
        upper |-> <<0, 32768>>, lower |-> <<65535, 32767>>,
        u |-> 11, d |-> <<65535, 65535>>,
        s |-> 7, b |-> <<22144, 40236>>,               \* 9D2C5680
        t |-> 15, c |-> <<0, 61382>>,                  \* EFC60000
        l |-> 18]

Init0(p, seed) ==
  FoldLeft(LAMBDA x, i : Append(x, Add(Mul(p.f, XorW(x[i], ShR(x[i], p.w - 2))), OfInt(i, p.limbs))),
           <<seed>>, [i \in 1..(p.n - 1) |-> i])
(* the next n words after x (of n words)                                         *)
Twist(p, a, b) == LET y == [k \in 1..p.limbs |-> (a[k] & p.upper[k]) + (b[k] & p.lower[k])]
                  IN IF y[1] % 2 = 1 THEN XorW(ShR(y, 1), p.a) ELSE ShR(y, 1)
Block(p, x) ==
  LET at(new, k) == IF k <= p.n THEN x[k] ELSE new[k - p.n]
  IN FoldLeft(LAMBDA new, k : Append(new, XorW(at(new, k + p.m), Twist(p, x[k], at(new, k + 1)))),
              <<>>, [k \in 1..p.n |-> k])
Temper(p, x0) ==
  LET x1 == XorW(x0, AndW(ShR(x0, p.u), p.d))
      x2 == XorW(x1, AndW(ShL(x1, p.s), p.b))
      x3 == XorW(x2, AndW(ShL(x2, p.t), p.c))
  IN XorW(x3, ShR(x3, p.l))
RECURSIVE Blocks(_, _, _)
Blocks(p, x, k) == IF k = 0 THEN <<>> ELSE LET y == Block(p, x) IN y \o Blocks(p, y, k - 1)
(* enough untempered words for n numbers                                         *)
Raw(p, seed, n) == Blocks(p, Init0(p, seed), (n + p.n - 1) \div p.n)
=============================================================================
