---------------------------- MODULE TraceLinalg ----------------------------
(* Conformance of the linear algebra: decompositions and solvers (P21), block *)
(* SVD (P23), eigensolvers (P24), iterative methods (P25).                    *)
EXTENDS Linalg, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Opt(r, f, dflt) == IF Has(r, f) THEN r[f] ELSE dflt
Died(r) == Has(r, "died")
Rejected(r) == Died(r) /\ r.died = 6
Returned(r) == ~Died(r) /\ ~Has(r, "post")

(* A X = B, X in units of 2^-16                                               *)
SolveAnswer(ev) ==
  LET n == Rows(ev.a)
      X == AsMat(ev.r.v, n)
  IN /\ Shape(ev.r.v, ev.a.c, ev.b.d) /\ Bounded(ev.r.v, 256 * 65536)
     /\ \A k \in 1..Len(ev.b.e) :
          CNear(IntTimes(ev.a, X).e[k], CScale(65536, ev.b.e[k]), 8 + n * 2 * MaxAbs(ev.a))
     /\ Closely(ev.a, X, AsMat(ev.b, n), 65536, CloseTol(ev.a))

SolveOK(ev) == Len(ev.a.d) = 2 /\ ev.a.d[1] = ev.a.d[2] /\ Len(ev.b.d) > 0 /\ ev.b.d[1] = ev.a.d[1]

(* k eigenvalues of type t, vectors r.z, values alone r.v0                     *)
EigsAnswer(ev) ==
  LET r == ev.r
      n == Rows(ev.x)
      triangular == Has(ev, "sp")         \* its diagonal
      sp == IF triangular THEN [i \in 1..n |-> El(ev.x, i, i)] ELSE Spectrum(ev)
  IN /\ Returned(r)
     /\ IF triangular THEN \A i, j \in 1..n : i < j => El(ev.x, i, j) = CZero ELSE Witness(ev.x, ev)
     /\ r.conv /\ r.conv0
     /\ Shape(r.v, ev.x.c, <<ev.k>>) /\ Bounded(r.v, 500 * One) /\ Extreme(r.v.e, sp, ev.t)
     /\ Shape(r.v0, ev.x.c, <<ev.k>>) /\ Bounded(r.v0, 500 * One) /\ Extreme(r.v0.e, sp, ev.t)
     /\ Shape(r.z, ev.x.c, <<n, ev.k>>) /\ Bounded(r.z, One + 64)
     /\ \A j \in 1..ev.k :
          LET v == Col(r.z, j) IN Unit(v) /\ EigenVector(ev.x, v, r.v.e[j], EigTol(ev.x))
     /\ ClosePairs(ev.x, r.v, sp, r.z) /\ CloseValues(r.v0, sp, 1024)
     /\ Opt(ev, "again", FALSE) =>
          /\ r.conv2 /\ Shape(r.v2, ev.x.c, <<ev.k>>) /\ Bounded(r.v2, 500 * One) /\ Extreme(r.v2.e, sp, ev.t)
          /\ Shape(r.z2, ev.x.c, <<n, ev.k>>) /\ Bounded(r.z2, One + 64) /\ ClosePairs(ev.x, r.v2, sp, r.z2)
(* The smallest eigenvalue of the Laplacian of a chain of 1200 points,        *)
(* 4 sin^2(pi / 2402), is out of reach of the iterations that the library     *)
(* allows: an answer that it calls converged has to be right all the same,    *)
(* and without a place to report the failure the call is refused.             *)
Chain == 470207                      \* times 2^36
SlowOK(ev) ==
  LET r == ev.r
      right == Len(r.v.e) = 1 /\ Near(r.v.e[1][1], Chain, Chain \div 100) /\ Near(r.v.e[1][2], 0, Chain \div 100)
  IN IF Died(r) THEN Rejected(r) /\ Opt(ev, "nc", FALSE)
     ELSE /\ r.v.d = <<1>> /\ r.v.c = ev.c
          /\ right \/ (~r.conv /\ ~Opt(ev, "nc", FALSE))
EigsOK(ev) ==
  LET n == ev.x.d[1] IN
  IF ~Square(ev.x) \/ ev.k < 1 \/ ev.k > n \/ ev.t \notin 0..5 THEN Rejected(ev.r)
  (* what ARPACK itself cannot do may be refused, not answered wrong           *)
  ELSE IF n > 4 /\ (ev.k = n \/ (ev.x.c /\ ev.k = n - 1) \/ (~ev.x.c /\ ev.t > 3)) THEN Rejected(ev.r) \/ EigsAnswer(ev)
  ELSE EigsAnswer(ev)

(* A session with an Arpack object: what each call does depends on how far    *)
(* the iteration has come.                                                    *)
Initial == 1
Running == 2
Finished == 3
RECURSIVE Session(_, _, _, _)
Session(ops, obs, k, st) ==
  IF k > Len(ops) THEN TRUE
  ELSE LET o == ops[k] IN
  CASE o.o = "update" ->
         LET q == obs[k] IN
         /\ IF st > Running THEN q = 4 ELSE q \in {Running, Finished, 5, 6}
         /\ Session(ops, obs, k + 1, q)
    [] o.o = "status" -> obs[k] = st /\ Session(ops, obs, k + 1, st)
    [] o.o = "run" ->          \* update and multiply until it stops
         LET q == obs[k] IN
         /\ IF st > Running THEN q = 4 ELSE q \in {Finished, 5, 6}
         /\ (Has(o, "must") => q = o.must)
         /\ Session(ops, obs, k + 1, q)
    [] o.o = "msg" -> obs[k] = (IF st > Finished THEN 1 ELSE 0) /\ Session(ops, obs, k + 1, st)
    [] o.o = "size" -> obs[k] = o.n /\ Session(ops, obs, k + 1, st)
    [] o.o = "sety" -> st = Running /\ Session(ops, obs, k + 1, st)
    [] o.o = "data" -> st = Finished /\ obs[k] = o.n /\ Session(ops, obs, k + 1, st)
    [] o.o = "vectors" -> st = Finished /\ obs[k] = 1000 * o.k + 10 * o.n + o.k /\ Session(ops, obs, k + 1, st)
    [] o.o \in {"x", "y"} -> Session(ops, obs, k + 1, st)
    [] o.o \in {"start", "tol", "maxit", "rand"} -> Session(ops, obs, k + 1, st)
SessionOK(ev) ==
  IF Has(ev, "dies") THEN Rejected(ev.r) ELSE Returned(ev.r) /\ Session(ev.ops, ev.r.obs, 1, Initial)

Good(ev) ==
  LET op == ev.op
      r == ev.r
  IN
  CASE op = "solve" ->
         IF ~SolveOK(ev) \/ Opt(ev, "sing", FALSE) THEN Rejected(r)
         ELSE Returned(r) /\ SolveAnswer(ev)
    [] op = "svd" ->
         IF ~IsMat(ev.x) \/ ev.x.d[1] = 0 \/ ev.x.d[2] = 0 THEN Rejected(r)
         ELSE /\ Returned(r)
              /\ SvdOK(ev.x, r.s, r.u, r.v, ev.ec)
              /\ SameValues(ev.x, r.s, r.s0)
              /\ SameValues(ev.x, r.s, r.s1) /\ UOnlyOK(ev.x, r.s1, r.u1, ev.ec)
              /\ SameValues(ev.x, r.s, r.s2) /\ VOnlyOK(ev.x, r.s2, r.v2, ev.ec)
    [] op = "eig" ->
         IF ~Square(ev.x) THEN Rejected(r)
         ELSE /\ Returned(r)
              /\ \A w \in {r.w0, r.w1, r.w2, r.w3} : ValuesOK(ev.x, w, TRUE)
              /\ RightOK(ev.x, r.w3, r.r3) /\ r.r3.c /\ LeftOK(ev.x, r.w3, r.l3) /\ r.l3.c
              /\ RightOK(ev.x, r.w1, r.r1) /\ LeftOK(ev.x, r.w2, r.l2)
              /\ (Has(ev, "p") => /\ Witness(ev.x, ev)
                                  /\ \A w \in {r.w0, r.w1, r.w2, r.w3} :
                                       SameSpectrum(w.e, Spectrum(ev), Opt(ev, "tol", 256)))
              /\ (Has(ev, "p") /\ ~Has(ev, "tol") =>
                   LET sp == Spectrum(ev)
                       B == Adj(ev.x)
                       cj(w) == [w EXCEPT !.e = [k \in 1..Len(w.e) |-> CConj(w.e[k])], !.l = [k \in 1..Len(w.l) |-> CConj(w.l[k])]]
                       spc == [k \in 1..Len(sp) |-> CConj(sp[k])]
                   IN /\ ClosePairs(ev.x, r.w1, sp, r.r1) /\ ClosePairs(ev.x, r.w3, sp, r.r3) /\ CloseValues(r.w0, sp, 1024)
                      /\ ClosePairs(B, cj(r.w2), spc, r.l2) /\ ClosePairs(B, cj(r.w3), spc, r.l3))
    [] op = "eig_sym" ->
         IF ~Square(ev.x) THEN Rejected(r)
         ELSE /\ Returned(r) /\ ev.x.e = Adj(ev.x).e
              /\ ValuesOK(ev.x, r.w0, FALSE) /\ ValuesOK(ev.x, r.w1, FALSE)
              /\ RightOK(ev.x, r.w1, r.v) /\ r.v.c = ev.x.c /\ OrthoCols(r.v)
              /\ NearMat([e |-> SortSeq(r.w0.e, LAMBDA a, b : a[1] < b[1])],
                         [e |-> SortSeq(r.w1.e, LAMBDA a, b : a[1] < b[1])], 16)
              /\ (Has(ev, "p") =>
                   /\ Witness(ev.x, ev) /\ SameSpectrum(r.w0.e, Spectrum(ev), 256) /\ SameSpectrum(r.w1.e, Spectrum(ev), 256)
                   /\ ClosePairs(ev.x, r.w1, Spectrum(ev), r.v) /\ CloseValues(r.w0, Spectrum(ev), 1024))

    [] op = "lsq" ->
         IF ~IsMat(ev.a) \/ ev.a.d[1] = 0 \/ ev.a.d[2] = 0 \/ Len(ev.b.d) = 0 \/ ev.b.d[1] # ev.a.d[1] THEN Rejected(r) ELSE
         /\ Returned(r)
         /\ LET m == Cols(ev.a)
                X == AsMat(r.v, m)
            IN /\ Shape(r.v, ev.a.c, <<m>> \o Tail(ev.b.d)) /\ Bounded(r.v, 28 * One)
               /\ LeastSquares(ev.a, X, AsMat(ev.b, Rows(ev.a)))
               /\ LET G == IntTimes(Adj(ev.a), ev.a)
                  IN Closely(G, X, IntTimes(Adj(ev.a), AsMat(ev.b, Rows(ev.a))), One, CloseTol(G))
               /\ (Has(ev, "z") => /\ MinimalNorm(ev.a, X, ev.z)
                                   /\ Vanishes(IntTimes(Adj(ev.z), X), IntTimes(Adj(ev.z), Lower(X)), CloseTol(Adj(ev.z))))
    [] op = "cgs" ->
         IF ~Square(ev.a) \/ Len(ev.b.d) = 0 \/ ev.b.d[1] # ev.a.d[1]
            \/ (Has(ev, "x0") /\ Len(ev.x0.e) # Len(ev.b.e))
         THEN Rejected(r) ELSE
         /\ Returned(r)
         /\ LET n == Rows(ev.a) IN
            /\ ev.a = Adj(ev.a) /\ Shape(r.v, ev.a.c, ev.b.d) /\ Bounded(r.v, 28 * One)
            /\ Solves(ev.a, AsMat(r.v, n), AsMat(ev.b, n), 256 + n * MaxAbs(ev.a))
            /\ Closely(ev.a, AsMat(r.v, n), AsMat(ev.b, n), One, CloseTol(ev.a))
    [] op = "power" ->
         IF ~Square(ev.x) THEN Rejected(r) ELSE
         LET n == Rows(ev.x)
             A == IF ev.side = "left" THEN Tr(ev.x) ELSE ev.x
         IN /\ Returned(r) /\ Witness(ev.x, ev) /\ HasDominant(ev)
            /\ Shape(r.z, ev.x.c, <<n>>) /\ Unit(r.z)
            /\ Same(r.v, Spectrum(ev)[Dominant(ev)])
            /\ EigenVector(A, AsMat(r.z, n), r.v, 2048)
            /\ LET z == Spectrum(ev)[Dominant(ev)]
                   B == Shifted(A, z)
                   X == AsMat(r.z, n)
                   m == Max2(Abs(z[1]), Abs(z[2]))
               IN /\ CloseTo(r.v, r.l, z, 1024 * m)
                  /\ LowOK(X) /\ Vanishes(IntTimes(B, X), IntTimes(B, Lower(X)), 500000 * m)
    [] op = "expm" ->
         IF ~IsMat(ev.x) \/ ev.x.d[1] # ev.x.d[2] THEN Rejected(r)
         ELSE /\ Returned(r) /\ Shape(r.v, ev.x.c, ev.x.d)
              /\ LET q == Opt(ev.x, "q", 1) IN
                 /\ Bounded(r.v, 900 * One)
                 /\ NearMat(r.v, Exp(ev.x, q), ExpTol(ev.x, q))
    [] op = "expm_nil" ->          \* result times 24, units of 2^-8
         /\ Returned(r) /\ Nilpotent(ev.x) /\ Shape(r.v, ev.x.c, ev.x.d)
         /\ NearMat(r.v, [e |-> [k \in 1..Len(ev.x.e) |-> CScale(256, Exp24(ev.x).e[k])]], 0)
         /\ LowOK(r.v) /\ Zero(Lower(r.v), 64)
    [] op = "expm_decay" ->
         /\ Returned(r) /\ Witness(ev.x, ev) /\ Decaying(ev) /\ Shape(r.v, ev.x.c, ev.x.d)
         /\ DecayedOK(r.v, ev)
    [] op = "eigs" -> EigsOK(ev)
    [] op = "slow" -> SlowOK(ev)
    [] op = "badmap" -> Rejected(r)      \* a function that returns vectors of another length
    [] op = "arpack" -> SessionOK(ev)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ IF Good(Events[i']) THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id>>)
=============================================================================
