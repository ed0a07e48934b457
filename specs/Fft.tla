-------------------------------- MODULE Fft --------------------------------
(* The discrete Fourier transform along chosen dimensions, by its definition, *)
(* and the shift that centres the zero frequency.  Tensors are column-major   *)
(* sequences e with dimensions d.                                             *)
EXTENDS Fix

Stride(d, k) == ProdSeq(SubSeq(d, 1, k - 1))
(* coordinate of the element at position p (from 0) in dimension k            *)
Coord(d, k, p) == (p \div Stride(d, k)) % d[k]

(* along dimension k: unnormalised, exp(sign 2 pi i j l / n).  Elements in     *)
(* units of 2^-16                                                             *)
Dft1(e, d, k, sign) ==
  LET n == d[k]
      st == Stride(d, k)
  IN [q \in 1..Len(e) |->
        LET j == Coord(d, k, q - 1)
            p0 == (q - 1) - j * st
        IN CSum([l \in 1..n |->
              LET m == (j * (l - 1)) % n
                  w == Tw[n][(IF sign > 0 THEN m ELSE (n - m) % n) + 1]
              IN FCMul(e[p0 + (l - 1) * st + 1], w, 8)])]

Dft(x, conv, sign) ==
  LET e0 == [k \in 1..Len(x.e) |-> CScale(65536, x.e[k])]
  IN FoldLeft(LAMBDA e, k : IF conv[k] /\ x.d[k] > 1 THEN Dft1(e, x.d, k, sign) ELSE e,
              e0, [k \in 1..Len(x.d) |-> k])

(* position from which the shift takes the element at coordinate j            *)
ShiftFrom(n, j, sign) == IF sign < 0 THEN (j + n - n \div 2) % n ELSE (j + n \div 2) % n
Shift1(e, d, k, sign) ==
  LET n == d[k]
      st == Stride(d, k)
  IN [q \in 1..Len(e) |-> LET j == Coord(d, k, q - 1) IN e[(q - 1) + (ShiftFrom(n, j, sign) - j) * st + 1]]
Shift(x, conv, sign) ==
  [x EXCEPT !.e = FoldLeft(LAMBDA e, k : IF conv[k] THEN Shift1(e, x.d, k, sign) ELSE e,
                           x.e, [k \in 1..Len(x.d) |-> k])]

(* which dimensions a call asks for                                           *)
Dims(ev) ==
  LET r == Len(ev.x.d) IN
  CASE ev.k = "all" -> [i \in 1..r |-> TRUE]
    [] ev.k = "one" -> [i \in 1..r |-> i = ev.dim + 1]
    [] ev.k = "set" -> ev.conv
AskOK(ev) ==
  LET r == Len(ev.x.d) IN
  CASE ev.k = "all" -> TRUE
    [] ev.k = "one" -> ev.dim >= 0 /\ ev.dim < r
    [] ev.k = "set" -> Len(ev.conv) = r
=============================================================================
