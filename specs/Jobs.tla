-------------------------------- MODULE Jobs --------------------------------
(* A job is one point of a grid of parameters.  This module specifies how the  *)
(* command line and the job files describe the grid, how the jobs enumerate    *)
(* it, and which of them a program invoked with given options runs.            *)
(* Texts are sequences of character codes; reals are in units of 10^-6.        *)
EXTENDS Num

(* ------------------------------------------------------------------ the grid *)
(* sizes: number of values of each variable, in the order of their definition  *)
NJobs(sizes) == ProdSeq(sizes)
Stride(sizes, k) == ProdSeq(SubSeq(sizes, 1, k - 1))
Digit(sizes, job, k) == (job \div Stride(sizes, k)) % sizes[k]     \* first variable fastest
Point(sizes, job) == [k \in 1..Len(sizes) |-> Digit(sizes, job, k)]

(* k-th of n equally spaced values from a to b                                  *)
Entry(a, b, n, k) ==
  IF n = 1 THEN a
  ELSE LET d == b - a
           q == d \div (n - 1)
           r == d % (n - 1)
       IN a + k * q + (k * r) \div (n - 1)

(* the block of jobs number b out of nb                                         *)
Ceil(a, b) == (a + b - 1) \div b
BlockFirst(n, nb, b) == Min2(b * Ceil(n, nb), n)
BlockLast(n, nb, b) == Min2(n - 1, BlockFirst(n, nb, b) + Ceil(n, nb) - 1)

(* ----------------------------------------------------------------- the texts *)
Seps == {32, 9, 10, 44, 59}
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, k, w) ==      \* w: the word being read
  IF k > Len(s) THEN IF w = <<>> THEN <<>> ELSE <<w>>
  ELSE IF s[k] \in Seps THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o WordsFrom(s, k + 1, <<>>)
  ELSE WordsFrom(s, k + 1, Append(w, s[k]))
Words(s) == WordsFrom(s, 1, <<>>)
RECURSIVE LinesFrom(_, _, _)
LinesFrom(s, k, w) ==
  IF k > Len(s) THEN <<w>>
  ELSE IF s[k] = 10 THEN <<w>> \o LinesFrom(s, k + 1, <<>>)
  ELSE LinesFrom(s, k + 1, Append(w, s[k]))
Lines(s) == LinesFrom(s, 1, <<>>)

IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == \A k \in 1..Len(s) : IsDigit(s[k])
Nat0(s) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, s)
Signed(s) == Len(s) > 0 /\ s[1] \in {43, 45}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
Sgn(s) == IF Signed(s) /\ s[1] = 45 THEN -1 ELSE 1
(* an integer: <<value>>, or <<>> when the text is not one                      *)
Integer(s) == LET b == Body(s)
              IN IF Len(b) = 0 \/ ~AllDigits(b) \/ Len(b) > 9 THEN <<>> ELSE <<Sgn(s) * Nat0(b)>>
Cut(s, S) == LET m == {k \in 1..Len(s) : s[k] \in S}      \* position of the first of S, or one past the end
             IN IF m = {} THEN Len(s) + 1 ELSE CHOOSE k \in m : \A j \in m : k <= j
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 0 /\ s[Len(s)] = 48 THEN NoZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* [sign] digits [. digits] [e integer], with at least one digit                *)
Real(s) ==
  LET b == Body(s)
      e == Cut(b, {69, 101})
      m == SubSeq(b, 1, e - 1)
      x == IF e > Len(b) THEN <<0>> ELSE Integer(SubSeq(b, e + 1, Len(b)))
      p == Cut(m, {46})
      ip == SubSeq(m, 1, p - 1)
      fp == NoZeros(SubSeq(m, p + 1, Len(m)))
      sh == 6 - Len(fp) + (IF x = <<>> THEN 0 ELSE x[1])
      v == Nat0(ip \o fp)
  IN IF Len(ip) + Len(SubSeq(m, p + 1, Len(m))) = 0 \/ ~AllDigits(ip) \/ ~AllDigits(SubSeq(m, p + 1, Len(m))) \/ x = <<>> THEN <<>>
     ELSE <<Sgn(s) * (IF sh >= 0 THEN v * Pow10(sh) ELSE v \div Pow10(-sh))>>

(* a variable: <<[name, min, max, n]>>, or <<>> when the text is malformed       *)
Variable(s) ==
  LET w == Words(s)
  IN IF Len(w) < 2 \/ Len(w) > 4 THEN <<>>
     ELSE LET a == Real(w[2])
              b == IF Len(w) > 2 THEN Real(w[3]) ELSE a
              n == IF Len(w) = 2 THEN <<1>> ELSE IF Len(w) = 3 THEN <<10>> ELSE Integer(w[4])
          IN IF a = <<>> \/ b = <<>> \/ n = <<>> THEN <<>>
             ELSE IF n[1] <= 0 THEN <<>>
             ELSE <<[name |-> w[1], min |-> a[1], max |-> b[1], n |-> n[1]]>>
(* a job file: <<variables>>, or <<>>                                            *)
JobFile(s) ==
  LET l == SelectSeq(Lines(s), LAMBDA x : Words(x) # <<>>)
      v == [k \in 1..Len(l) |-> Variable(l[k])]
  IN IF \E k \in 1..Len(l) : v[k] = <<>> THEN <<>>
     ELSE <<[k \in 1..Len(l) |-> v[k][1]]>>

(* ---------------------------------------------------------- the command line *)
Refused == [ok |-> FALSE]
Start == [ok |-> TRUE, vars |-> <<>>, this |-> <<>>, blocks |-> <<>>, first |-> <<>>, last |-> <<>>,
          print |-> FALSE, help |-> FALSE]
(* one option with its argument; files: path -> text                             *)
Option(o, a, st, files) ==
  CASE o = "--job" -> IF a \notin DOMAIN files THEN Refused
                      ELSE LET v == JobFile(files[a])
                           IN IF v = <<>> THEN Refused ELSE [st EXCEPT !.vars = @ \o v[1]]
    [] o = "--variable" -> LET v == Variable(a) IN IF v = <<>> THEN Refused ELSE [st EXCEPT !.vars = @ \o v]
    [] o = "--this-job" -> LET n == Integer(a) IN IF n = <<>> THEN Refused ELSE [st EXCEPT !.this = n]
    [] o = "--job-blocks" -> LET n == Integer(a) IN IF n = <<>> THEN Refused ELSE [st EXCEPT !.blocks = n]
    [] o = "--first-job" -> LET n == Integer(a) IN IF n = <<>> THEN Refused ELSE [st EXCEPT !.first = n]
    [] o = "--last-job" -> LET n == Integer(a) IN IF n = <<>> THEN Refused ELSE [st EXCEPT !.last = n]

Sizes(st) == [k \in 1..Len(st.vars) |-> st.vars[k].n]
(* what to run: refused, or the interval of jobs                                 *)
Plan(st) ==
  IF ~st.ok THEN Refused
  ELSE LET n == NJobs(Sizes(st))
           range(a, b) == [ok |-> TRUE, n |-> n, first |-> a, last |-> b]
       IN IF st.this # <<>> /\ st.first # <<>> THEN Refused
          ELSE IF st.last # <<>> /\ st.first = <<>> THEN Refused
          ELSE IF st.blocks # <<>> THEN
                 IF st.first # <<>> \/ st.last # <<>> \/ st.blocks[1] <= 0 THEN Refused
                 ELSE LET b == IF st.this = <<>> THEN 0 ELSE st.this[1]
                      IN IF b < 0 THEN Refused ELSE range(BlockFirst(n, st.blocks[1], b), BlockLast(n, st.blocks[1], b))
          ELSE IF st.first # <<>> THEN
                 IF st.first[1] < 0 \/ st.first[1] >= n THEN Refused
                 ELSE LET l == IF st.last = <<>> THEN n - 1 ELSE Min2(st.last[1], n - 1)
                      IN IF l < st.first[1] THEN Refused ELSE range(st.first[1], l)
          ELSE IF st.this # <<>> THEN
                 IF st.this[1] < 0 THEN Refused ELSE range(st.this[1], Min2(st.this[1], n - 1))
          ELSE range(0, n - 1)

(* the values of the variables in a job                                          *)
ValueIn(st, job, k) == LET v == st.vars[k] IN Entry(v.min, v.max, v.n, Digit(Sizes(st), job, k))
=============================================================================
