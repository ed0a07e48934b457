-------------------------------- MODULE Text --------------------------------
(* The text the library writes for numbers, vectors, tensors and matrices.     *)
EXTENDS Num, TLC

Digits(n) == ToString(n)
Frac(r, q) == CASE r = 0 -> "" [] 4 * r = q -> ".25" [] 2 * r = q -> ".5" [] 4 * r = 3 * q -> ".75"
(* v/q, q = 1, 2 or 4; negative zero, infinities and NaN have codes            *)
RealText(v, q) ==
  CASE v = NaN -> "nan" [] v = Inf -> "inf" [] v = -Inf -> "-inf" [] v = 1999999999 -> "-0"
    [] v < 0 -> "-" \o Digits((-v) \div q) \o Frac((-v) % q, q)
    [] OTHER -> Digits(v \div q) \o Frac(v % q, q)
NumText(c, z, q) == IF c THEN RealText(z[1], q) \o " " \o RealText(z[2], q) ELSE RealText(z[1], q)

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
List(s) == "[" \o Join(s, ", ") \o "]"
Ints(s) == List([k \in 1..Len(s) |-> RealText(s[k], 1)])
Elements(t, q) == [k \in 1..Len(t.e) |-> NumText(t.c, t.e[k], q)]
TensorText(t, q) == "(" \o Ints(t.d) \o ")/" \o List(Elements(t, q))
(* rows one below the other                                                    *)
MatrixText(t, q) ==
  IF Len(t.d) = 1 THEN List(Elements(t, q))
  ELSE LET row(i) == Join([j \in 1..t.d[2] |-> NumText(t.c, t.e[i + t.d[1] * (j - 1)], q)], ", ")
       IN "[" \o Join([i \in 1..t.d[1] |-> row(i)], "\n ") \o "]"
=============================================================================
