----------------------------- MODULE TraceText -----------------------------
(* Conformance of the text output (P27).                                       *)
EXTENDS Text, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Returned(r) == ~Has(r, "died") /\ ~Has(r, "post")
Rejected(r) == Has(r, "died") /\ r.died = 6
Q(ev) == IF Has(ev.x, "q") THEN ev.x.q ELSE 1

(* each object is written twice, with a bar behind it: writing one leaves the  *)
(* stream ready for the next                                                   *)
Twice(s) == s \o "|" \o s \o "|"
Good(ev) ==
  LET k == ev.k
      r == ev.r
  IN CASE k = "tensor" -> Returned(r) /\ r.v = Twice(TensorText(ev.x, Q(ev)))
       [] k = "vector" -> Returned(r) /\ r.v = Twice(List(Elements(ev.x, Q(ev))))
       [] k = "sparse" -> Returned(r) /\ r.v = Twice(TensorText(ev.x, Q(ev)))
       [] k \in {"matrix", "smatrix"} ->
            IF Len(ev.x.d) > 2 THEN Rejected(r) ELSE Returned(r) /\ r.v = Twice(MatrixText(ev.x, Q(ev)))
       [] k \in {"indices", "static"} -> Returned(r) /\ r.v = Twice(Ints(ev.l))
       [] k = "booleans" -> Returned(r) /\ r.v = Twice(List([j \in 1..Len(ev.l) |-> IF ev.l[j] THEN "1" ELSE "0"]))
       [] k = "number" -> Returned(r) /\ r.v = Twice(NumText(TRUE, ev.n, 1))
       [] k = "scan" -> Returned(r) /\ r.v = ev.l      \* numbers read back from their text

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ IF Good(Events[i']) THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id>>)
=============================================================================
