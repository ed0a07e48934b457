------------------------------ MODULE TraceFft ------------------------------
(* Conformance of fftw, fftw_inplace and fftshift (P22).                      *)
EXTENDS Fft, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Died(r) == Has(r, "died")
Rejected(r) == Died(r) /\ r.died = 6
Returned(r) == ~Died(r) /\ ~Has(r, "post")

Close(v, d, e, tol) == v.c /\ v.d = d /\ Len(v.e) = Len(e) /\ \A k \in 1..Len(e) : CNear(v.e[k], e[k], tol)
Total(x) == IF x.d = <<>> THEN 0 ELSE ProdSeq(x.d)

(* tolerance, in 2^-16: one unit per twiddle and product, for elements up to 9 *)
Tol(x) == 64 + 24 * Total(x)

Good(ev) ==
  LET r == ev.r
      x == ev.x
  IN
  CASE ev.op = "fft" ->
         IF ~AskOK(ev) THEN Rejected(r)
         ELSE /\ Returned(r)
              /\ LET y == Dft(x, Dims(ev), ev.dir) IN
                    /\ Close(r.v, x.d, y, Tol(x))
                    \* the in-place variant, on a tensor that has a copy
                    /\ Close(r.w, x.d, y, Tol(x))
              /\ r.k = x
    [] ev.op = "fft_back" ->                   \* there and back: the product of the lengths
         /\ Returned(r)
         /\ LET m == ProdSeq([k \in 1..Len(x.d) |-> IF Dims(ev)[k] THEN x.d[k] ELSE 1])
            IN Close(r.v, x.d, [k \in 1..Len(x.e) |-> CScale(m * 4096, x.e[k])], 1)
    [] ev.op = "fftshift" ->
         IF ~AskOK(ev) THEN Rejected(r)
         ELSE Returned(r) /\ r.v = Shift(x, Dims(ev), ev.dir) /\ r.b = x

VARIABLE i
Init == i = 1
Next == /\ i <= Len(Events)
        /\ IF Good(Events[i]) THEN TRUE ELSE PrintT(<<"BAD", Events[i].id>>)
        /\ i' = i + 1
=============================================================================
