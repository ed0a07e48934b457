------------------------------- MODULE MCFft -------------------------------
(* How do_fftw tells FFTW which elements to transform: dimension by dimension *)
(* it collects (length, stride) pairs, for the dimensions to transform and    *)
(* for those to loop over.  Explored for every shape and every subset of      *)
(* dimensions: the lines visited partition the tensor, and each of them is a  *)
(* line of the tensor along the chosen dimensions.  And how fftshift moves    *)
(* two slices: the result is the rotation, and the other direction undoes it. *)
EXTENDS Fft, TLC

CONSTANTS MaxRank, MaxLen, SkipLoop   \* SkipLoop: strides that forget the loop dimensions (refuted)
Shapes == UNION {[1..r -> 1..MaxLen] : r \in 1..MaxRank}

VARIABLES d, conv, k, stride, fft, loop
vars == <<d, conv, k, stride, fft, loop>>

Init == /\ d \in Shapes /\ conv \in [1..Len(d) -> BOOLEAN]
        /\ k = 1 /\ stride = 1 /\ fft = <<>> /\ loop = <<>>

Collect ==
  /\ k <= Len(d)
  /\ LET e == <<d[k], stride>> IN
     IF conv[k] THEN fft' = Append(fft, e) /\ loop' = loop
                ELSE loop' = Append(loop, e) /\ fft' = fft
  /\ stride' = IF SkipLoop /\ ~conv[k] THEN stride ELSE stride * d[k]
  /\ k' = k + 1
  /\ UNCHANGED <<d, conv>>

(* the two slices of fftshift, exactly as the code computes their limits      *)
ShiftSlices(n, sign) ==
  LET half == n \div 2
      odd == n % 2 = 1
      minfreq == IF ~odd THEN half ELSE IF sign < 0 THEN (n + 1) \div 2 ELSE (n + 1) \div 2 - 1
      Nhalf == IF ~odd THEN half ELSE IF sign < 0 THEN (n - 1) \div 2 ELSE (n - 1) \div 2 + 1
  IN [j \in 0..n - 1 |-> IF j < Nhalf THEN minfreq + j ELSE j - Nhalf]

Next == Collect
Spec == Init /\ [][Next]_vars

(* addresses spanned by a list of (length, stride)                            *)
RECURSIVE Span(_)
Span(l) == IF l = <<>> THEN {0}
           ELSE LET s == Span(Tail(l)) IN {a + j * l[1][2] : a \in s, j \in 0..l[1][1] - 1}
Lens(l) == ProdSeq([j \in 1..Len(l) |-> l[j][1]])

Done == k > Len(d)
Partition == Done =>
  LET f == Span(fft) lo == Span(loop) N == ProdSeq(d) IN
  /\ Cardinality(f) = Lens(fft) /\ Cardinality(lo) = Lens(loop)
  /\ {a + b : a \in f, b \in lo} = 0..N - 1 /\ Lens(fft) * Lens(loop) = N
  (* two elements of one block differ only in the dimensions to transform *)
  /\ \A b \in lo, a \in f : \A m \in 1..Len(d) : ~conv[m] => Coord(d, m, a + b) = Coord(d, m, b)

ShiftRight ==
  \A n \in 2..12 : \A s \in {-1, 1} :
    LET p == ShiftSlices(n, s) q == ShiftSlices(n, -s) IN
    /\ \A j \in 0..n - 1 : p[j] = ShiftFrom(n, j, s)
    /\ \A j \in 0..n - 1 : p[q[j]] = j
    /\ ShiftSlices(n, -1)[n \div 2] = 0            \* the zero frequency, in the centre
Inv == Partition /\ (k = 1 => ShiftRight)
=============================================================================
