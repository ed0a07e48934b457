------------------------------- MODULE MCRanges -------------------------------
(* How a slice walks over a tensor.  Every range is a small machine that gives  *)
(* one position at a time (pop), can start again (reset), is told the length of *)
(* its dimension (limit) and by how much its positions are multiplied (factor). *)
(* Several ranges are joined two by two: the product takes the first range      *)
(* through all its positions for each position of the second.  Explored for     *)
(* every choice of ranges on every small shape, starting again at any moment:   *)
(* what comes out is exactly what TensorAlgebra calls the selected positions,   *)
(* in their order, and then nothing more, however often one asks.               *)
EXTENDS TensorAlgebra, FiniteSets, TLC
CONSTANTS MaxRank, MaxLen, Bug        \* Bug: "" | "reset" | "factor" (refuted)

NoMore == -1
(* ------------------------------------------------------------ the machines *)
Make(r) == CASE r[1] = "f" -> [k |-> "f", c |-> 0, e |-> 0, lim |-> 0, fac |-> 1]
             [] r[1] = "s" -> [k |-> "s", n |-> r[2], c |-> r[2], lim |-> 0, fac |-> 1]
             [] r[1] = "r" -> [k |-> "t", a |-> r[2], b |-> r[3], s |-> 1, n |-> 0, lim |-> 0, fac |-> 1]
             [] r[1] = "t" -> [k |-> "t", a |-> r[2], b |-> r[3], s |-> r[4], n |-> 0, lim |-> 0, fac |-> 1]
             [] r[1] = "i" -> [k |-> "i", l |-> r[2], c |-> 0, lim |-> 0, fac |-> 1]
Quot(x, y) == IF y = 0 THEN 0 ELSE IF x < 0 THEN -((-x) \div y) ELSE x \div y      \* as C divides, for the y that occur: see NoZeroFactor
SetLimit(R, n) == IF R.k = "f" THEN [R EXCEPT !.lim = n, !.e = n * R.fac] ELSE [R EXCEPT !.lim = n]
NonZero(n) == IF n = 0 /\ Bug # "factor" THEN 1 ELSE n
RECURSIVE SetFactor(_, _)
SetFactor(R, f) ==
  LET x(v) == Quot(v, R.fac) * f IN
  CASE R.k = "f" -> [R EXCEPT !.c = 0, !.e = R.lim * f, !.fac = f]
    [] R.k = "s" -> [R EXCEPT !.n = x(R.n), !.fac = f]
    [] R.k = "t" -> [R EXCEPT !.a = x(R.a), !.b = x(R.b), !.s = x(R.s), !.n = x(R.a), !.fac = f]
    [] R.k = "i" -> [R EXCEPT !.l = [j \in 1..Len(R.l) |-> x(R.l[j])], !.c = 0, !.fac = f]
    [] R.k = "p" -> LET a == SetFactor(R.r1, f)
                    IN [R EXCEPT !.r1 = a, !.r2 = SetFactor(R.r2, f * NonZero(a.lim))]
Product(a, b) == [k |-> "p", r1 |-> a, r2 |-> SetFactor(b, a.fac * NonZero(a.lim)), base |-> 0, lim |-> 0, fac |-> 1]

RECURSIVE SizeOf(_)
SizeOf(R) == CASE R.k = "f" -> R.lim
               [] R.k = "s" -> 1
               [] R.k = "t" -> IF (IF R.s > 0 THEN R.a > R.b ELSE R.a < R.b) THEN 0
                               ELSE (IF R.s > 0 THEN (R.b - R.a) \div R.s ELSE (R.a - R.b) \div (-R.s)) + 1
               [] R.k = "i" -> Len(R.l)
               [] R.k = "p" -> SizeOf(R.r1) * SizeOf(R.r2)

(* pop: <<position, the machine afterwards>>                                   *)
RECURSIVE Pop(_), Reset(_), Turn(_)
Pop(R) ==
  CASE R.k = "f" -> IF R.c >= R.e THEN <<NoMore, R>> ELSE <<R.c, [R EXCEPT !.c = @ + R.fac]>>
    [] R.k = "s" -> IF R.c # 0 THEN <<NoMore, R>> ELSE <<R.n, [R EXCEPT !.c = 1]>>
    [] R.k = "t" -> IF (IF R.s > 0 THEN R.n > R.b ELSE R.n < R.b) THEN <<NoMore, R>> ELSE <<R.n, [R EXCEPT !.n = @ + R.s]>>
    [] R.k = "i" -> IF R.c >= Len(R.l) THEN <<NoMore, R>> ELSE <<R.l[R.c + 1], [R EXCEPT !.c = @ + 1]>>
    [] R.k = "p" -> Turn(R)
Turn(R) == IF R.base = NoMore THEN <<NoMore, R>>
           ELSE LET n == Pop(R.r1) IN
                IF n[1] # NoMore THEN <<n[1] + R.base, [R EXCEPT !.r1 = n[2]]>>
                ELSE LET b == Pop(R.r2)
                     IN Turn([R EXCEPT !.base = b[1], !.r2 = b[2], !.r1 = Reset(n[2])])
Reset(R) ==
  CASE R.k = "f" -> [R EXCEPT !.c = 0]
    [] R.k = "s" -> [R EXCEPT !.c = 0]
    [] R.k = "t" -> [R EXCEPT !.n = R.a]
    [] R.k = "i" -> [R EXCEPT !.c = 0]
    [] R.k = "p" -> LET b == Pop(IF Bug = "reset" THEN R.r2 ELSE Reset(R.r2))
                    IN [R EXCEPT !.r1 = Reset(R.r1), !.r2 = b[2], !.base = b[1]]
(* joined from the right: r1 * (r2 * (r3 * ...))                               *)
RECURSIVE Join(_)
Join(l) == IF Len(l) = 1 THEN l[1] ELSE Product(Head(l), Join(Tail(l)))

(* -------------------------------------------------------------- behaviours *)
Ranges(n) == {<<"f">>} \union {<<"s", j>> : j \in 0..n - 1}
             \union {<<"t", a, b, s>> : a \in 0..n - 1, b \in 0..n - 1, s \in {-2, -1, 1, 2}}
             \union {<<"i", l>> : l \in UNION {[1..m -> 0..n - 1] : m \in 0..2}}
             \union {<<"r", 1, 0>>, <<"t", -5, 7, -3>>}
Shapes == UNION {[1..r -> 0..MaxLen] : r \in 1..MaxRank}

VARIABLES d, rs, R, out, again, done
vars == <<d, rs, R, out, again, done>>
Build(dd, q) == Reset(Join([j \in 1..Len(dd) |-> SetLimit(Make(q[j]), dd[j])]))
TotalSelected == LET t == [c |-> FALSE, d |-> d, e |-> [k \in 1..Size(d) |-> k]]
                 IN Selected(t, rs)

Init == /\ d \in Shapes
        /\ rs \in {q \in [1..Len(d) -> Ranges(MaxLen)] : \A j \in 1..Len(d) : RangeOK(q[j], d[j])}
        /\ R = Build(d, rs) /\ out = <<>> /\ again = 1 /\ done = 0
Give == /\ done < 2
        /\ LET p == Pop(R) IN
           /\ R' = p[2]
           /\ IF p[1] = NoMore THEN done' = done + 1 /\ out' = out ELSE out' = Append(out, p[1]) /\ done' = done
        /\ UNCHANGED <<d, rs, again>>
Restart == /\ again > 0 /\ again' = again - 1
           /\ R' = Reset(R) /\ out' = <<>> /\ done' = 0
           /\ UNCHANGED <<d, rs>>
Next == Give \/ Restart
Spec == Init /\ [][Next]_vars

InOrder == LET s == TotalSelected IN
           /\ Len(out) <= Len(s) /\ \A k \in 1..Len(out) : out[k] = s[k] - 1
           /\ (done > 0 => Len(out) = Len(s))
           /\ SizeOf(R) = Len(s)
(* positions are divided by the factor before they are multiplied by another   *)
RECURSIVE Factors(_)
Factors(r) == IF r.k = "p" THEN Factors(r.r1) \union Factors(r.r2) ELSE {r.fac}
NoZeroFactor == 0 \notin Factors(R)
===============================================================================
