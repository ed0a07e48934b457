------------------------------- MODULE MCLock -------------------------------
(* The lock protocol of shared data files, one system call per step: a lock    *)
(* file is opened (and created), locked with flock without waiting, checked to *)
(* be still the file with that name, and removed before it is released.        *)
(* Inodes are reused as soon as nothing refers to them.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, Sessions, Writes, Kills,
          CheckPath,    \* after flock, verify that the name still leads to the locked file
          UnlinkFirst   \* remove the lock file before giving the lock up (else after)
Procs == 1..N
Inodes == 1..(N + 1)

VARIABLES path,     \* inode of the lock file, or 0
          fd,       \* fd[p]: inode the process has open, or 0
          owner,    \* owner[i]: who holds the flock of inode i, or 0
          pc, left, \* left[p]: sessions still to come
          data,     \* what has been written: <<process, session, number>>
          done,     \* sessions closed, in order
          w,        \* w[p]: writes done in this session
          kills, last
vars == <<path, fd, owner, pc, left, data, done, w, kills, last>>

Init == /\ path = 0 /\ fd = [p \in Procs |-> 0] /\ owner = [i \in Inodes |-> 0]
        /\ pc = [p \in Procs |-> "open"] /\ left = [p \in Procs |-> Sessions]
        /\ data = <<>> /\ done = <<>> /\ w = [p \in Procs |-> 0] /\ kills = 0 /\ last = 0

Used == {path} \union {fd[p] : p \in Procs}
Free == CHOOSE i \in Inodes : i \notin Used /\ \A j \in Inodes : j \notin Used => i <= j
At(p, a) == pc[p] = a /\ last' = p
Go(p, a) == pc' = [pc EXCEPT ![p] = a]

Open(p) ==
  /\ At(p, "open") /\ Go(p, "flock")
  /\ LET i == IF path = 0 THEN Free ELSE path
     IN path' = i /\ fd' = [fd EXCEPT ![p] = i]
  /\ UNCHANGED <<owner, left, data, done, w, kills>>
Flock(p) ==
  /\ At(p, "flock")
  /\ IF owner[fd[p]] = 0
     THEN owner' = [owner EXCEPT ![fd[p]] = p] /\ Go(p, IF CheckPath THEN "check" ELSE "dopen")
     ELSE UNCHANGED owner /\ Go(p, "giveup")
  /\ UNCHANGED <<path, fd, left, data, done, w, kills>>
Check(p) ==
  /\ At(p, "check") /\ Go(p, IF path = fd[p] THEN "dopen" ELSE "giveup")
  /\ UNCHANGED <<path, fd, owner, left, data, done, w, kills>>
Released(p) == [i \in Inodes |-> IF owner[i] = p THEN 0 ELSE owner[i]]
GiveUp(p) ==        \* close the descriptor and start again
  /\ At(p, "giveup") /\ Go(p, "open")
  /\ owner' = Released(p) /\ fd' = [fd EXCEPT ![p] = 0]
  /\ UNCHANGED <<path, left, data, done, w, kills>>
DOpen(p) ==
  /\ At(p, "dopen") /\ Go(p, "write") /\ w' = [w EXCEPT ![p] = 0]
  /\ UNCHANGED <<path, fd, owner, left, data, done, kills>>
Write(p) ==
  /\ At(p, "write") /\ w[p] < Writes /\ w' = [w EXCEPT ![p] = @ + 1]
  /\ data' = Append(data, <<p, left[p], w[p] + 1>>)
  /\ UNCHANGED <<path, fd, owner, pc, left, done, kills>>
DClose(p) ==
  /\ At(p, "write") /\ w[p] = Writes /\ Go(p, IF UnlinkFirst THEN "unlink" ELSE "release")
  /\ done' = Append(done, <<p, left[p]>>)
  /\ UNCHANGED <<path, fd, owner, left, data, w, kills>>
Unlink(p) ==
  /\ At(p, "unlink") /\ path' = 0
  /\ IF UnlinkFirst THEN Go(p, "release") /\ UNCHANGED left
     ELSE left' = [left EXCEPT ![p] = @ - 1] /\ Go(p, IF left[p] > 1 THEN "open" ELSE "end")
  /\ UNCHANGED <<fd, owner, data, done, w, kills>>
Release(p) ==
  /\ At(p, "release") /\ owner' = Released(p) /\ fd' = [fd EXCEPT ![p] = 0]
  /\ IF UnlinkFirst THEN left' = [left EXCEPT ![p] = @ - 1] /\ Go(p, IF left[p] > 1 THEN "open" ELSE "end")
     ELSE Go(p, "unlink") /\ UNCHANGED left
  /\ UNCHANGED <<path, data, done, w, kills>>
Kill(p) ==          \* the system closes the descriptors of a dead process
  /\ pc[p] # "end" /\ kills < Kills /\ kills' = kills + 1 /\ last' = p
  /\ Go(p, "end") /\ owner' = Released(p) /\ fd' = [fd EXCEPT ![p] = 0]
  /\ UNCHANGED <<path, left, data, done, w>>

Step(p) == Open(p) \/ Flock(p) \/ Check(p) \/ GiveUp(p) \/ DOpen(p) \/ Write(p) \/ DClose(p) \/ Unlink(p) \/ Release(p)
Next == \E p \in Procs : Step(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

Inside == {p \in Procs : pc[p] = "write"}
Mutex == Cardinality(Inside) <= 1
Block(s) == [k \in 1..Writes |-> <<s[1], s[2], k>>]
(* every closed session is one uninterrupted block of the file, in order        *)
RECURSIVE HasBlocks(_, _)
HasBlocks(d, ss) ==
  IF ss = <<>> THEN TRUE
  ELSE \E k \in 0..(Len(d) - Writes) :
         /\ SubSeq(d, k + 1, k + Writes) = Block(Head(ss))
         /\ HasBlocks(SubSeq(d, k + Writes + 1, Len(d)), Tail(ss))
Nothing == HasBlocks(data, done) /\ (Kills = 0 => Len(data) = Writes * Len(done) + (IF Inside = {} THEN 0 ELSE w[CHOOSE p \in Inside : TRUE]))
Progress == <>(\A p \in Procs : pc[p] = "end")
NoFileLeft == (Kills = 0 /\ \A p \in Procs : pc[p] = "end") => path = 0
Sym == Permutations(Procs)
View == <<path, fd, owner, pc, left, data, done, w, kills>>
=============================================================================
