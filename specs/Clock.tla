------------------------------- MODULE Clock -------------------------------
(* The stopwatch: tic() looks at the clock and keeps what it saw; toc() tells  *)
(* how long ago the latest tic() was, toc(w) how long ago it was w.  A call    *)
(* takes place at some moment of an interval [b, a] that others measured.      *)
EXTENDS Integers, Sequences

(* the answers of a call within [b, a] about a moment within tb..ta, give or   *)
(* take e                                                                      *)
Since(v, b, a, tb, ta, e) == v >= b - ta - e /\ v <= a - tb + e

(* a history of steps [o, b, a, v] (toc with "k": the k-th tic), each right    *)
RECURSIVE Tics(_, _)
Tics(h, n) ==                      \* positions of the tics among the first n steps
  IF n = 0 THEN <<>> ELSE IF h[n].o = "tic" THEN Append(Tics(h, n - 1), n) ELSE Tics(h, n - 1)
StepOK(h, n, e) ==
  LET s == h[n]
      t == Tics(h, n - 1)
      at(k) == h[t[k]]
  IN CASE s.o = "toc" -> LET l == at(Len(t)) IN Since(s.v, s.b, s.a, l.b, l.a, e)
       [] s.o = "tocw" -> LET l == at(s.k) IN Since(s.v, s.b, s.a, l.b, l.a, e)
       [] s.o = "tic" -> t = <<>> \/ LET l == at(1) IN Since(s.v - l.v, s.b, s.a, l.b, l.a, e)     \* all on one scale
       [] OTHER -> TRUE
Right(h, e) == \A n \in 1..Len(h) : StepOK(h, n, e)
=============================================================================
