---------------------------- MODULE TraceSparse ----------------------------
(* Conformance of the sparse matrices: construction, access (P12), algebra    *)
(* (P13).  Results are judged by what they stand for, Full(s), and by their   *)
(* form, Canonical(s); the values are recomputed with the dense algebra.      *)
EXTENDS Sparse, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Opt(r, f, dflt) == IF Has(r, f) THEN r[f] ELSE dflt
Died(r) == Has(r, "died")
Rejected(r) == Died(r) /\ r.died = 6
Returned(r) == ~Died(r) /\ ~Has(r, "post")

(* what drv_sparse's see() reports is consistent: the form, full(), every     *)
(* element by operator(), sizes; and copies did not disturb the original      *)
Seen(r) ==
  LET s == r.s IN
  /\ Canonical(s)
  /\ r.s2 = s /\ r.s3 = s
  /\ LET f == Full(s) IN r.f = f /\ r.g = f.e
  /\ r.n = <<s.d[1], s.d[2], s.d[1], s.d[2], Len(s.e), IF s.d[1] = 0 \/ s.d[2] = 0 THEN 1 ELSE 0>>

Operand2(ev) == IF Opt(ev, "al", FALSE) THEN ev.s ELSE ev.t
Abs2(z) == z[1] * z[1] + z[2] * z[2]

(* programs: the state is the matrices of a pool, as they are stored; a step   *)
(* replaces one of them and leaves the others as they are, in every member    *)
ProgValue(p, s) ==       \* what the replaced matrix stands for
  LET x == Full(p[s.x + 1])
      y == Full(p[s.y + 1])
  IN CASE s.op = "ctor" -> s.v
       [] s.op \in {"neg", "transpose", "adjoint", "conj", "real", "imag"} -> SUn(s.op, x)
       [] s.op \in {"*", "n*"} -> SNum(s.op, Opt(s, "nc", FALSE), x, s.n)
       [] s.op = "t+" -> SBin("+", x, y)
       [] s.op = "t-" -> SBin("-", x, y)
       [] s.op = "t*" -> SBin("*", x, y)
       [] s.op \in {"kron", "kron2", "kron2_sum"} -> SBin(s.op, x, y)
       [] s.op = "st" -> MMult(x, s.v)
       [] s.op = "ts" -> MMult(s.v, x)
ProgStep(p, s) ==
  LET q == s.pool
      v == q[s.to + 1]
  IN /\ Len(q) = Len(p)
     /\ \A k \in 1..Len(p) : k # s.to + 1 => q[k] = p[k]
     /\ Canonical(v)
     /\ s.f = Full(v)
     /\ CASE s.op = "assign" -> v = p[s.x + 1]
          [] s.op = "poke" -> v = [p[s.x + 1] EXCEPT !.e[s.i + 1] = s.n]
          [] OTHER -> s.f = ProgValue(p, s)
     /\ \A k \in 1..Len(q) : s.eq[k] = IF q[k].d = v.d /\ Full(q[k]).e = s.f.e THEN 1 ELSE 0
ProgOK(r) ==
  /\ \A k \in 1..Len(r.start) : Canonical(r.start[k])
  /\ \A k \in 1..Len(r.steps) : ProgStep(IF k = 1 THEN r.start ELSE r.steps[k - 1].pool, r.steps[k])

Good(ev) ==
  LET op == ev.op
      r == ev.r
  IN
  CASE op = "sp_dense" ->
         IF Len(ev.x.d) # 2 THEN Rejected(r) ELSE Returned(r) /\ Seen(r) /\ r.f = ev.x
    [] op = "sp_trip" ->
         IF ~TripOK(ev) THEN Rejected(r) ELSE Returned(r) /\ Seen(r) /\ TripFits(ev, r.f)
    [] op = "sp_repr" -> IF ~Consistent(ev.s) THEN Rejected(r)
                         ELSE Returned(r) /\ Seen(r) /\ \A f \in {"c", "d", "rs", "cl", "e"} : r.s[f] = ev.s[f]
    [] op = "sp_none" -> Returned(r) /\ Seen(r) /\ r.s = [c |-> ev.c, d |-> <<0, 0>>, rs |-> <<0>>, cl |-> <<>>, e |-> <<>>]
    [] op = "sp_zero" -> IF ev.n < 0 \/ ev.m < 0 THEN Rejected(r) ELSE Returned(r) /\ Seen(r) /\ r.f = Const(ev.c, <<ev.n, ev.m>>, CZero)
    [] op = "sp_eye" -> IF ev.n < 0 \/ Opt(ev, "m", 0) < 0 THEN Rejected(r) ELSE Returned(r) /\ Seen(r) /\ r.f = Eye(ev.c, ev.n, Opt(ev, "m", ev.n))
    [] op = "sp_random" ->     \* entries are numbers of absolute value at most 1 (units of 2^-20)
         /\ Returned(r) /\ Seen(r) /\ r.s.d = <<ev.n, ev.m>> /\ r.s.c = ev.c
         /\ \A k \in 1..Len(r.s.e) : Abs(r.s.e[k][1]) <= 1048577 /\ Abs(r.s.e[k][2]) <= 1048577
         /\ (ev.pc = 0 => Len(r.s.e) = 0)
    [] op = "sp_conv" -> Returned(r) /\ Seen(r) /\ r.f = ScaleBy(Full(ev.s), TRUE)
    [] op = "sp_get" ->
         IF ValidIndex(ev.i, ev.s.d[1]) /\ ValidIndex(ev.j, ev.s.d[2])
         THEN Returned(r) /\ r.v = Elem(ev.s, Norm(ev.i, ev.s.d[1]), Norm(ev.j, ev.s.d[2]))
         ELSE Rejected(r)
    [] op = "sp_dim" -> IF ev.i \in {0, 1} THEN Returned(r) /\ r.v = ev.s.d[ev.i + 1] ELSE Rejected(r)
    [] op = "sp_equal" ->
         LET q == ev.s.d = ev.t.d /\ Full(ev.s).e = Full(ev.t).e
         IN Returned(r) /\ r.v = <<q, q, q>>
    [] op = "sp_un" ->
         Returned(r) /\ Canonical(r.s) /\ r.f = Full(r.s) /\ r.f = SUn(ev.k, Full(ev.s))
    [] op = "sp_num" ->
         Returned(r) /\ Canonical(r.s) /\ r.f = Full(r.s) /\ r.f = SNum(ev.k, Opt(ev, "nc", FALSE), Full(ev.s), ev.n)
    [] op = "sp_bin" ->
         LET t == Operand2(ev) IN
         IF ~SBinOK(ev.k, ev.s, t) THEN Rejected(r)
         ELSE Returned(r) /\ Canonical(r.s) /\ r.f = Full(r.s) /\ r.f = SBin(ev.k, Full(ev.s), Full(t))
    [] op = "sp_prog" -> Returned(r) /\ ProgOK(r)
    [] op = "sp_mm" ->
         LET S == Full(ev.s)
             a == IF ev.k = "st" THEN S ELSE ev.x
             b == IF ev.k = "st" THEN ev.x ELSE S
         IN IF a.d[Len(a.d)] # b.d[1] THEN Rejected(r)
            ELSE Returned(r) /\ r.v = MMult(a, b)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ IF Good(Events[i']) THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id>>)
=============================================================================
