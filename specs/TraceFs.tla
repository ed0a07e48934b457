------------------------------ MODULE TraceFs ------------------------------
(* Conformance of the file helpers (P28): each event is a history of calls    *)
(* and of what others do to the tree; after each step the whole tree is seen. *)
EXTENDS Fs, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Seen(t) == [p \in {t[k].p : k \in 1..Len(t)} |-> LET k == CHOOSE j \in 1..Len(t) : t[j].p = p IN [k |-> t[k].k, c |-> t[k].c]]
Node1(s) == [k |-> s.o, c |-> s.c]

(* a name of more than 255 characters, or an empty one, stands for nothing     *)
Fits(p) == \A k \in 1..Len(p) : p[k] \notin {"", "@long"}
Apply(fs, s) ==
  CASE s.o \in {"file", "sock", "fifo", "link"} ->      \* made by others, where there is room for it
         IF Entry(fs, s.p) = NoPath \/ Node(fs, s.p) # Nothing THEN Yes(fs) ELSE Yes(Put(fs, Entry(fs, s.p), Node1(s)))
    [] s.o = "exists" -> IF ~Fits(s.p) THEN No(fs) ELSE FileExists(fs, s.p)
    [] s.o = "isdir" -> IF ~Fits(s.p) THEN No(fs) ELSE IsDir(fs, s.p)
    [] s.o = "mkdir" -> IF ~Fits(s.p) THEN No(fs) ELSE MakeDirectory(fs, s.p)
    [] s.o = "delete" -> IF ~Fits(s.p) THEN No(fs) ELSE DeleteFile(fs, s.p)
    [] s.o = "rename" -> IF ~Fits(s.p) THEN Refused(fs)
                         ELSE IF ~Fits(s.q) THEN (IF Stat(fs, s.p).k = "none" THEN Refused(fs) ELSE No(fs))
                         ELSE RenameFile(fs, s.p, s.q, s.ow)

RECURSIVE Bits(_, _, _)
Bits(a, mask, n) ==      \* a without the bits of mask
  IF n = 0 THEN 0 ELSE (IF a % 2 = 1 /\ mask % 2 = 0 THEN 1 ELSE 0) + 2 * Bits(a \div 2, mask \div 2, n - 1)

StepOK(s, r, x) ==
  /\ IF x.dies THEN r.died = 6 /\ r.diag ELSE r.died = 0 /\ r.ret = x.ret
  /\ Seen(r.tree) = x.st
  /\ r.umask = s.umask                                \* left as it was
  /\ (s.o = "mkdir" /\ x.ret => r.mode = Bits(s.mode, s.umask, 9))

RECURSIVE Run(_, _, _)
Run(ev, fs, k) ==        \* the first step that is wrong, or 0
  IF k > Len(ev.steps) THEN 0
  ELSE LET x == Apply(fs, ev.steps[k]) IN
       IF ~WellFormed(x.st) \/ ~StepOK(ev.steps[k], ev.r.steps[k], x) THEN k ELSE Run(ev, x.st, k + 1)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ LET ev == Events[i']
               k == Run(ev, [p \in {} |-> Dir], 1)
           IN IF k = 0 THEN TRUE ELSE PrintT(<<"BAD", ev.id, k>>)
=============================================================================
