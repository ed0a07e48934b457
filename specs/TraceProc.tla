------------------------------ MODULE TraceProc -----------------------------
(* Data files used by several processes under a controlled schedule (op       *)
(* "lock"), and processes killed at every system call (op "crash").            *)
(*                                                                             *)
(* The log of a schedule lists what each process did: want, got (the file is   *)
(* open through the library), rel (about to be closed), done; dopen and dclose *)
(* are the calls that really open and close the data file.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Range(s) == {s[k] : k \in 1..Len(s)}

(* ---------------------------------------------------------- mutual exclusion *)
(* st: inside - processes between got and rel; open - descriptors on the data;  *)
(* order - sessions in the order in which they had the file; sess - next one    *)
S0(ev) == LET P == 0..(Len(ev.prog) - 1)
          IN [inside |-> {}, open |-> [p \in P |-> 0], sess |-> [p \in P |-> 1], order |-> <<>>, ok |-> TRUE]
Others(st, p) == {q \in DOMAIN st.open : q # p /\ (q \in st.inside \/ st.open[q] > 0)}
Do(st, x) ==
  LET p == x[1]
  IN CASE x[2] = "want" -> st
       [] x[2] = "dopen" -> [st EXCEPT !.open[p] = @ + 1, !.ok = @ /\ Others(st, p) = {}]
       [] x[2] = "dclose" -> [st EXCEPT !.open[p] = @ - 1]
       [] x[2] = "got" -> [st EXCEPT !.inside = @ \union {p}, !.ok = @ /\ Others(st, p) = {},
                                      !.order = Append(@, <<p, st.sess[p]>>)]
       [] x[2] = "rel" -> [st EXCEPT !.inside = @ \ {p}]
       [] x[2] = "done" -> [st EXCEPT !.sess[p] = @ + 1]
       [] x[2] = "killed" -> [st EXCEPT !.inside = @ \ {p}, !.open[p] = 0]
RECURSIVE Replay(_, _, _)
Replay(st, log, k) == IF k > Len(log) THEN st ELSE Replay(Do(st, log[k]), log, k + 1)

(* what the file must hold: what was there, and one block per writing session   *)
Block(ev, s) ==
  LET ss == ev.prog[s[1] + 1][s[2]]
  IN IF ss.kind = "out" THEN [k \in 1..ss.recs |-> (s[1] + 1) * 10000 + (s[2] - 1) * 100 + k - 1] ELSE <<>>
RECURSIVE Blocks(_, _)
Blocks(ev, order) == IF order = <<>> THEN <<>> ELSE Block(ev, Head(order)) \o Blocks(ev, Tail(order))

LockVerdict(ev) ==
  LET st == Replay(S0(ev), ev.r.log, 1)
      killed == \E k \in 1..Len(ev.r.ends) : ev.r.ends[k] = -1
      all == ev.pre \o Blocks(ev, st.order)
  IN IF ~st.ok THEN <<"two processes had the file open">>
     ELSE IF ev.r.stuck THEN <<"a process never got the file">>
     ELSE IF \E k \in 1..Len(ev.r.ends) : ev.r.ends[k] \notin {0, -1} THEN <<"a process died">>
     ELSE IF ~killed /\ (ev.r.data # all \/ ev.r.extra # Append(all, -1)) THEN <<"records lost or mixed">>
     ELSE IF ~killed /\ Len(st.order) # Len(ev.prog) /\ \A p \in DOMAIN st.sess : st.sess[p] # Len(ev.prog[p + 1]) + 1
          THEN <<"sessions missing">>
     ELSE <<>>

(* ------------------------------------------------------------------- crashes *)
(* contents are numbered, 0 standing for a missing file                         *)
Switch(s, old, new) ==         \* old, old, ..., new, new
  \E k \in 0..Len(s) : (\A j \in 1..k : s[j] = old) /\ (\A j \in (k + 1)..Len(s) : s[j] = new)
CrashVerdict(ev) ==
  LET r == ev.r
  IN IF r.stuck \/ r.end # 0 THEN <<"the normal run fails">>
     ELSE IF r.fin = 0 \/ r.got # ev.new \/ r.got2 # Append(ev.new, -1) THEN <<"the new version is not in place">>
     ELSE IF r.left THEN <<"a temporary file is left">>
     ELSE IF ~Switch(r.during, r.old, r.fin) THEN <<"seen while it is written">>
     ELSE IF \E k \in 1..Len(r.states) : r.states[k] \notin {r.old, r.fin}
          THEN <<"after a crash at call", CHOOSE k \in 1..Len(r.states) : r.states[k] \notin {r.old, r.fin}>>
     ELSE IF \E k \in 1..Len(r.redo) : r.redo[k] # ev.new THEN <<"rewriting after a crash">>
     ELSE <<>>

(* appending: a crash does no harm to what was there before                     *)
Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
AppendVerdict(ev) ==
  LET r == ev.r
      all == ev.old \o ev.new
      good(c) ==  /\ Len(c) >= 1 /\ c[Len(c)] = -1
                  /\ Prefix(SubSeq(c, 1, Len(c) - 1), all)
                  /\ Len(c) > Len(ev.old)
  IN IF r.stuck \/ r.end # 0 THEN <<"the normal run fails">>
     ELSE IF r.got # all \/ r.got2 # Append(all, -1) THEN <<"records lost">>
     ELSE IF \E k \in 1..Len(r.states) : ~good(r.states[k]) THEN <<"damaged by a crash">>
     ELSE <<>>

Verdict(ev) ==
  IF Has(ev.r, "died") THEN <<"died">>
  ELSE IF ev.op = "lock" THEN LockVerdict(ev)
  ELSE IF ev.mode = 1 THEN AppendVerdict(ev) ELSE CrashVerdict(ev)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ LET v == Verdict(Events[i']) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
