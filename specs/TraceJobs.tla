------------------------------ MODULE TraceJobs ------------------------------
(* Conformance of invocations of programs that use class Job.                   *)
EXTENDS Jobs, Decimal, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r

(* options by their codes                                                       *)
Named == [n \in {"--job", "--variable", "--this-job", "--job-blocks", "--first-job", "--last-job", "--print-jobs", "--help"} |->
  CASE n = "--job" -> <<45,45,106,111,98>>
    [] n = "--variable" -> <<45,45,118,97,114,105,97,98,108,101>>
    [] n = "--this-job" -> <<45,45,116,104,105,115,45,106,111,98>>
    [] n = "--job-blocks" -> <<45,45,106,111,98,45,98,108,111,99,107,115>>
    [] n = "--first-job" -> <<45,45,102,105,114,115,116,45,106,111,98>>
    [] n = "--last-job" -> <<45,45,108,97,115,116,45,106,111,98>>
    [] n = "--print-jobs" -> <<45,45,112,114,105,110,116,45,106,111,98,115>>
    [] n = "--help" -> <<45,45,104,101,108,112>>]
Which(s) == {n \in DOMAIN Named : Named[n] = s}

RECURSIVE Parse(_, _, _, _)
Parse(argv, k, st, files) ==
  IF ~st.ok \/ k > Len(argv) \/ st.help THEN st
  ELSE LET w == Which(argv[k])
       IN IF w = {} THEN Parse(argv, k + 1, st, files)
          ELSE LET o == CHOOSE x \in w : TRUE
               IN IF o = "--print-jobs" THEN Parse(argv, k + 1, [st EXCEPT !.print = TRUE], files)
                  ELSE IF o = "--help" THEN [st EXCEPT !.help = TRUE]
                  ELSE IF k = Len(argv) THEN Refused
                  ELSE Parse(argv, k + 2, Option(o, argv[k + 1], st, files), files)

Files(ev) == LET F == ev.files
                 path(x) == <<64, 47>> \o x
             IN [p \in {path(F[k].name) : k \in 1..Len(F)} |->
                   F[CHOOSE k \in 1..Len(F) : path(F[k].name) = p].text]
Line(ev, argv) == Parse(argv, 1, Start, Files(ev))

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

Close(v, x) == Near(v, x, 2)
NamesOf(st) == [k \in 1..Len(st.vars) |-> st.vars[k].name]
RightValues(st, names, job, vals) ==
  /\ Len(vals) = Len(names)
  /\ \A k \in 1..Len(names) : \E m \in 1..Len(st.vars) :
        st.vars[m].name = names[k] /\ Close(vals[k], ValueIn(st, job, m))
(* the jobs visited are a, a+1, ..., with the right values                      *)
Walk(st, names, a, b, walk, max, more) ==
  LET len == Max2(0, b - a + 1)
  IN IF Len(walk) # Min2(len, max) \/ more # (len > max) THEN <<"number of jobs run", Len(walk), "wanted", len>>
     ELSE LET bad == {k \in 1..Len(walk) : walk[k][1] # a + k - 1 \/ ~RightValues(st, names, walk[k][1], walk[k][2])}
          IN IF bad = {} THEN <<>> ELSE <<"job", walk[CHOOSE k \in bad : \A j \in bad : k <= j]>>

Known(st, x) == \E m \in 1..Len(st.vars) : st.vars[m].name = x
Defaults(ev, st, last, got) ==   \* after the loop: only variables that do not exist are looked at
  \A k \in 1..Len(ev.default) : ~Known(st, ev.default[k]) => got[k] = 123250000

(* how --job-blocks divides the jobs is not specified, except that each block is *)
(* an interval, and all of them a partition (see BlocksVerdict, SplitVerdict)     *)
Free(st) == st.blocks # <<>>
Beyond(st) == Free(st) /\ st.this # <<>> /\ st.this[1] >= st.blocks[1]
WalkFree(st, names, n, walk, max, more) ==
  LET a == IF walk = <<>> THEN 0 ELSE walk[1][1]
  IN IF a < 0 \/ a + Len(walk) > n \/ (more /\ (Len(walk) # max \/ a + max >= n)) \/ (Beyond(st) /\ walk # <<>>)
     THEN <<"block", a, Len(walk)>>
     ELSE Walk(st, names, a, IF more THEN n - 1 ELSE a + Len(walk) - 1, walk, max, more)

JobVerdict(ev) ==
  LET r == ev.r
      st == Line(ev, ev.argv)
      p == Plan(st)
  IN IF st.ok /\ st.help THEN IF r.st = 100 /\ Len(r.out) > 100 THEN <<>> ELSE <<"--help", r.st>>
     ELSE IF ~p.ok THEN IF r.st = -6 THEN <<>> ELSE <<"not refused", r.st>>
     ELSE IF st.print THEN IF r.st = 100 /\ r.out = Digits(p.n) THEN <<>> ELSE <<"--print-jobs", r.st, r.out>>
     ELSE IF Has(ev, "want") /\ ~Known(st, ev.want) THEN IF r.st = -6 THEN <<>> ELSE <<"unknown variable accepted">>
     ELSE IF Beyond(st) /\ r.st = -6 THEN <<>>
     ELSE IF r.st # 0 THEN <<"refused", r.st>>
     ELSE IF r.got[1] # p.n THEN <<"number of jobs", r.got[1], "wanted", p.n>>
     ELSE IF Has(ev, "default") /\ ~Defaults(ev, st, p.last, r.got[4]) THEN <<"default value">>
     ELSE IF Free(st) THEN WalkFree(st, ev.names, p.n, r.got[2], ev.max, r.got[3])
     ELSE Walk(st, ev.names, p.first, p.last, r.got[2], ev.max, r.got[3])

(* a data set computed by several invocations: each record once, by the first    *)
(* invocation in charge that does not die before completing it                   *)
(* done: jobs recorded; r: one run, <<status, visits>>                            *)
RunVerdict(ev, run, rr, done) ==
  LET st == Line(ev, run.argv)
      p == Plan(st)
      v == rr[2]
      first == IF p.ok /\ Free(st) THEN IF v = <<>> THEN 0 ELSE v[1][1] ELSE p.first
      len == IF p.ok /\ Free(st) THEN Len(v) ELSE Max2(0, p.last - p.first + 1)
      dies == {k \in 1..Len(v) : v[k][2] = -1}
  IN IF Beyond(st) /\ v = <<>> /\ rr[1] \in {0, -6} THEN <<>>
     ELSE IF p.ok /\ v # <<>> /\ (first < 0 \/ first + len > p.n) THEN <<"block", first, len>>
     ELSE IF ~p.ok THEN IF rr[1] = -6 /\ v = <<>> THEN <<>> ELSE <<"not refused">>
     ELSE IF dies = {} /\ (rr[1] # 0 \/ Len(v) # len) THEN <<"visited", Len(v), "wanted", len, "status", rr[1]>>
     ELSE IF dies # {} /\ (rr[1] # 107 \/ dies # {Len(v)}) THEN <<"died", rr[1]>>
     ELSE IF \E k \in 1..Len(v) : v[k][1] # first + k - 1 THEN <<"order of the jobs">>
     ELSE IF \E k \in (1..Len(v)) \ dies : v[k] # <<v[k][1], IF v[k][1] \in done THEN 1 ELSE 0, IF v[k][1] \in done THEN 0 ELSE 1, 1>>
          THEN <<"record", CHOOSE k \in (1..Len(v)) \ dies : v[k] # <<v[k][1], IF v[k][1] \in done THEN 1 ELSE 0, IF v[k][1] \in done THEN 0 ELSE 1, 1>>>>
     ELSE <<>>
Added(rr) == {rr[2][k][1] : k \in {j \in 1..Len(rr[2]) : rr[2][j][2] # -1}}
RECURSIVE Runs(_, _, _)
Runs(ev, k, done) ==
  IF k > Len(ev.runs) THEN <<TRUE, done>>
  ELSE LET v == RunVerdict(ev, ev.runs[k], ev.r.runs[k], done)
       IN IF v # <<>> THEN <<FALSE, <<"run", k>> \o v>> ELSE Runs(ev, k + 1, done \cup Added(ev.r.runs[k]))
CampVerdict(ev) ==
  LET r == ev.r
      res == Runs(ev, 1, {})
      st == Line(ev, ev.runs[1].argv)
      idle(k) == LET p == Plan(Line(ev, ev.runs[k].argv)) IN p.ok /\ p.last < p.first
      may(k) == IF Free(Line(ev, ev.runs[k].argv)) THEN {0, -6} ELSE IF idle(k) THEN {0} ELSE {-6}
  IN IF ev.pre = 2 THEN IF \A k \in 1..Len(r.runs) : r.runs[k][2] = <<>> /\ r.runs[k][1] \in may(k) THEN <<>> ELSE <<"data set over a file">>
     ELSE IF ~res[1] THEN res[2]
     ELSE IF {r.jobs[k] : k \in 1..Len(r.jobs)} # res[2] \/ Len(r.jobs) # Cardinality(res[2]) THEN <<"records", r.jobs>>
     ELSE IF r.odd # 0 /\ \A k \in 1..Len(ev.runs) : ~Has(ev.runs[k], "die") THEN <<"files left">>
     ELSE LET bad == {k \in 1..Len(r.jobs) : ~RightValues(st, ev.names, r.jobs[k], r.values[k])}
          IN IF bad = {} THEN <<>> ELSE <<"values of record", r.jobs[CHOOSE k \in bad : TRUE]>>

(* all the blocks of a grid: a partition, whatever the rule                      *)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
BlocksVerdict(ev) ==
  LET r == ev.r
      st == Line(ev, ev.runs[1].argv)
      n == NJobs(Sizes(st))
      all == Cat([k \in 1..Len(r.runs) |-> [j \in 1..Len(r.runs[k][2]) |-> r.runs[k][2][j][1]]])
  IN IF \E k \in 1..Len(r.runs) : r.runs[k][1] # 0 /\ ~(Beyond(Line(ev, ev.runs[k].argv)) /\ r.runs[k] = <<-6, <<>>>>) THEN <<"a block fails">>
     ELSE IF Len(all) # n \/ {all[k] : k \in 1..Len(all)} # 0..(n - 1) THEN <<"jobs run by all blocks", all>>
     ELSE IF \E k \in 1..Len(r.jobs) : ~RightValues(st, ev.names, r.jobs[k], r.values[k]) THEN <<"values">>
     ELSE <<>>

(* the intervals <<first, number, consecutive?>> of all the blocks of a large grid *)
SplitVerdict(ev) ==
  LET r == ev.r
      st == Line(ev, ev.argv)
      n == NJobs(Sizes(st))
      B == SelectSeq(r.got, LAMBDA b : b[2] > 0)
      S == SortSeq(B, LAMBDA a, b : a[1] < b[1])
  IN IF r.st # 0 \/ Len(r.got) # ev.nb THEN <<"a block fails", r.st>>
     ELSE IF \E k \in 1..Len(B) : B[k][3] # 1 THEN <<"jobs of a block not consecutive", CHOOSE k \in 1..Len(B) : B[k][3] # 1>>
     ELSE IF B = <<>> \/ S[1][1] # 0 \/ S[Len(S)][1] + S[Len(S)][2] # n THEN <<"first or last job", n>>
     ELSE LET bad == {k \in 1..(Len(S) - 1) : S[k][1] + S[k][2] # S[k + 1][1]}
          IN IF bad = {} THEN <<>> ELSE <<"jobs left out or repeated after block at", S[CHOOSE k \in bad : TRUE]>>

(* grids of more jobs than an integer here (or a C int) can count: see Decimal    *)
RECURSIVE IdFrom(_, _, _)
IdFrom(sizes, point, k) == IF k > Len(sizes) THEN <<>> ELSE MulAdd(IdFrom(sizes, point, k + 1), sizes[k], point[k])
IdText(sizes, point) == DecText(IdFrom(sizes, point, 1))
CountText(sizes) == DecText(FoldLeft(LAMBDA a, n : MulAdd(a, n, 0), <<1>>, sizes))
RECURSIVE Succ(_, _)
Succ(sizes, point) ==     \* of the next job; <<>> after the last
  IF sizes = <<>> THEN <<>>
  ELSE IF point[1] + 1 < sizes[1] THEN <<point[1] + 1>> \o Tail(point)
  ELSE LET t == Succ(Tail(sizes), Tail(point)) IN IF t = <<>> THEN <<>> ELSE <<0>> \o t
(* visits <<id, values, recorded before, opened, recorded after>>; the values of  *)
(* a variable of n steps are 0, 1, ..., n - 1 (in hundredths in the trace)        *)
PointOf(v) == [k \in 1..Len(v[2]) |-> v[2][k] \div 100]
GridVisit(ev, v) ==
  LET p == PointOf(v)
  IN /\ \A k \in 1..Len(p) : v[2][k] = 100 * p[k] /\ p[k] >= 0 /\ p[k] < ev.sizes[k]
     /\ v[1] = IdText(ev.sizes, p)
RECURSIVE GridRecords(_, _, _)
GridRecords(V, k, done) ==
  k > Len(V) \/ (/\ V[k][3] = (IF V[k][1] \in done THEN 1 ELSE 0)
                 /\ V[k][4] = 1 - V[k][3]
                 /\ V[k][5] = 1
                 /\ GridRecords(V, k + 1, done \cup {V[k][1]}))
GridRun(ev, run, rr) ==   \* one invocation: <<status, number of jobs, visits, more>>
  LET V == rr[3] IN
  IF rr[1] # 0 THEN <<"refused", rr[1]>>
  ELSE IF rr[2] # CountText(ev.sizes) THEN <<"number of jobs", rr[2]>>
  ELSE IF \E k \in 1..Len(V) : ~GridVisit(ev, V[k]) THEN <<"values", CHOOSE k \in 1..Len(V) : ~GridVisit(ev, V[k])>>
  ELSE IF \E k \in 1..(Len(V) - 1) : PointOf(V[k + 1]) # Succ(ev.sizes, PointOf(V[k])) THEN <<"order">>
  ELSE IF run.how = "block" THEN <<>>
  ELSE IF V = <<>> \/ PointOf(V[1]) # run.k THEN <<"first job">>
  ELSE IF run.how = "exactly" /\ (Len(V) # run.n \/ rr[4]) THEN <<"number of jobs run", Len(V)>>
  ELSE IF run.how = "on" /\ ~(rr[4] \/ Succ(ev.sizes, PointOf(V[Len(V)])) = <<>>) THEN <<"stops before the last job">>
  ELSE <<>>
GridVerdict(ev) ==
  LET R == ev.r.runs
      bad == {k \in 1..Len(R) : GridRun(ev, ev.runs[k], R[k]) # <<>>}
      all == Cat([k \in 1..Len(R) |-> R[k][3]])
      B == SelectSeq([k \in 1..Len(R) |-> IF ev.runs[k].how = "block" THEN R[k][3] ELSE <<>>], LAMBDA v : v # <<>>)
      ids == {all[k][1] : k \in 1..Len(all)}
  IN IF bad # {} THEN LET k == CHOOSE x \in bad : \A y \in bad : x <= y IN <<"run", k>> \o GridRun(ev, ev.runs[k], R[k])
     ELSE IF \E k \in 1..(Len(B) - 1) : PointOf(B[k + 1][1]) # Succ(ev.sizes, PointOf(B[k][Len(B[k])])) THEN <<"jobs between two blocks">>
     ELSE IF ~GridRecords(all, 1, {}) THEN <<"records">>
     ELSE IF {ev.r.files[k] : k \in 1..Len(ev.r.files)} # ids THEN <<"files", ev.r.files>>
     ELSE IF \E k \in 1..Len(all) : \E f \in 1..Len(ev.r.files) : ev.r.files[f] = all[k][1] /\ ev.r.values[f] # all[k][2] THEN <<"values of a record">>
     ELSE <<>>

Verdict(ev) == IF Has(ev.r, "died") THEN <<"died">>
               ELSE IF ev.op = "grid" THEN GridVerdict(ev)
               ELSE IF ev.op = "job" THEN JobVerdict(ev)
               ELSE IF ev.op = "split" THEN SplitVerdict(ev)
               ELSE IF Has(ev, "blocks") THEN BlocksVerdict(ev) ELSE CampVerdict(ev)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ LET v == Verdict(Events[i']) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
