------------------------------ MODULE TraceSdf ------------------------------
(* Conformance of data files: every event is a history of sessions (write,     *)
(* append, overwrite, read, rename, delete) or a damaged file, with what the   *)
(* real library returned.                                                      *)
EXTENDS Sdf, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Refused(r) == r.died = 6 /\ r.diag

(* a read session: opening, then the loads                                      *)
ReadOK(recs, steps, r) ==
  LET x == LoadAll(recs, steps, 1)
      m == Len(x.out)
  IN /\ Len(r.steps) = m + 1
     /\ \A k \in 1..m : r.steps[k + 1] = x.out[k]
     /\ IF x.dies THEN Refused(r) ELSE r.died = 0

(* ---------------------------------------------------------------- histories *)
Records(steps) == [k \in 1..Len(steps) |-> Record(steps[k])]
Exists(st, f) == f \in DOMAIN st.files
Set(st, f, v) == [st EXCEPT !.files = [g \in DOMAIN st.files \union {f} |-> IF g = f THEN v ELSE st.files[g]]]
Drop(st, f) == [st EXCEPT !.files = [g \in DOMAIN st.files \ {f} |-> st.files[g]]]
Died(st) == [st EXCEPT !.died = TRUE]

(* [ok, st]: the session s with result r, started in state st                   *)
Single(st, s, r) ==
  CASE s.kind = "out" ->
         LET old == IF s.mode = 1 /\ Exists(st, s.file) THEN st.files[s.file] ELSE <<>>
             full == Set(st, s.file, old \o Records(s.steps))
         IN IF Has(s, "limit") /\ r.died # 0
            THEN [ok |-> Refused(r), st |-> [st EXCEPT !.files = Drop(st, s.file).files, !.died = TRUE, !.lost = @ \union {s.file}]]
            ELSE [ok |-> r.died = 0 /\ Len(r.steps) = Len(s.steps), st |-> full]
    [] s.kind = "in" ->
         IF s.file \in st.lost THEN [ok |-> TRUE, st |-> Died(st)]
         ELSE IF ~Exists(st, s.file) THEN [ok |-> r.steps = <<>> /\ Refused(r), st |-> Died(st)]
         ELSE [ok |-> ReadOK(st.files[s.file], s.steps, r), st |-> IF r.died # 0 THEN Died(st) ELSE st]
    [] s.kind = "rename" ->
         IF s.file \in st.lost \/ s.to \in st.lost THEN [ok |-> TRUE, st |-> Died(st)]
         ELSE IF ~Exists(st, s.file) \/ (Exists(st, s.to) /\ ~s.overwrite)
         THEN [ok |-> r.steps = <<>> /\ Refused(r), st |-> Died(st)]
         ELSE [ok |-> r.steps = <<<<TRUE>>>> /\ r.died = 0,
               st |-> Set(Drop(st, s.file), s.to, st.files[s.file])]
    [] s.kind = "crash" ->               \* the old contents stay; what it leaves behind disturbs nobody
         [ok |-> r.died = 0, st |-> Died(st)]
    [] s.kind = "delete" ->
         IF s.file \in st.lost THEN [ok |-> TRUE, st |-> Drop(st, s.file)]
         ELSE [ok |-> r.steps = <<<<Exists(st, s.file)>>>> /\ r.died = 0, st |-> Drop(st, s.file)]

(* two files open at once: as if each had been alone                            *)
Session(st, s, r) ==
  IF s.kind # "two" THEN Single(st, s, r)
  ELSE IF r.died # 0 THEN [ok |-> FALSE, st |-> st]
  ELSE LET a == Single(st, s.x, [steps |-> r.steps[1], died |-> 0, diag |-> FALSE])
           b == Single(a.st, s.y, [steps |-> r.steps[2], died |-> 0, diag |-> FALSE])
       IN [ok |-> a.ok /\ b.ok, st |-> b.st]

RECURSIVE Run(_, _, _)
Run(ev, st, k) ==                    \* <<>> or what is wrong
  IF k > Len(ev.ss)
  THEN IF /\ \A m \in 1..Len(ev.names) :
            \/ ev.names[m] \in st.lost
            \/ IF m <= ev.nfiles THEN ev.r.left[m] = Exists(st, ev.names[m])
               ELSE st.died \/ ev.r.left[m] = FALSE      \* lock and temporary files
          /\ (st.died \/ ev.r.extra = <<>>)               \* nor anything else
       THEN <<>> ELSE <<"left">>
  ELSE LET x == Session(st, ev.ss[k], ev.r.ss[k])
       IN IF x.ok THEN Run(ev, x.st, k + 1) ELSE <<"session", k>>

(* ------------------------------------------------------------------- damage *)
Complete(sizes, cut) ==              \* number of records that end before the cut; -1: not even the header
  IF cut < sizes[1] THEN -1 ELSE CHOOSE m \in 0..(Len(sizes) - 1) : sizes[m + 1] <= cut /\ (m + 2 > Len(sizes) \/ sizes[m + 2] > cut)
DamagedOK(recs, m, r) ==             \* the first m records are whole, nothing follows that can be read
  IF m = -1 THEN r.steps = <<>> /\ Refused(r)
  ELSE ReadOK(SubSeq(Records(recs), 1, m), recs, r)

CutOK(ev) ==
  /\ \A k \in 1..Len(ev.r.sizes) : ev.r.sizes[k] > (IF k = 1 THEN 0 ELSE ev.r.sizes[k - 1])
  /\ \A k \in 1..Len(ev.r.cuts) : DamagedOK(ev.recs, Complete(ev.r.sizes, ev.r.cuts[k]), ev.r.reads[k])
FlipOK(ev) ==
  \A k \in 1..Len(ev.at) : DamagedOK(ev.recs, ev.rec - 1, ev.r.reads[k])

Verdict(ev) ==
  IF Has(ev.r, "died") THEN <<"died">>
  ELSE CASE ev.op = "sdf" -> Run(ev, [files |-> [x \in {} |-> 0], died |-> FALSE, lost |-> {}], 1)
         [] ev.op = "sdfcut" -> IF CutOK(ev) THEN <<>> ELSE <<"cut">>
         [] ev.op = "sdfflip" -> IF FlipOK(ev) THEN <<>> ELSE <<"flip">>
         [] ev.op = "sdfraw" -> IF ev.r.read.steps = <<>> /\ Refused(ev.r.read) THEN <<>> ELSE <<"raw">>

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ LET v == Verdict(Events[i']) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
