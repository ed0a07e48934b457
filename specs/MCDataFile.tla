----------------------------- MODULE MCDataFile -----------------------------
(* One data file, written and read field by field, with crashes between any    *)
(* two writes and in the middle of them.  A number stands for a field of fixed *)
(* width; -1 stands for a field cut in the middle.                             *)
(*                                                                             *)
(* file: <<HDR>> then per record  <<name, tag, length, data1..datan>>          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS MaxRecords, MaxSessions, Names, Lengths, DeleteFirst, CheckShort
HDR == 9
Rec == {<<n, l>> : n \in Names, l \in Lengths}
Bytes(r) == <<r[1], 1, r[2]>> \o [k \in 1..r[2] |-> 5]
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE Bytes(Head(rs)) \o Flat(Tail(rs))
File(rs) == <<HDR>> \o Flat(rs)
None == <<-9>>
NoFile == <<<<-9, -9>>>>

VARIABLES disk,      \* [main, tmp]: contents, or None
          whole,     \* no writer died in the middle of the public file
          done,      \* records whose dump returned, in file order (public file); None if there is no file
          mode, pend, new, pc, sess,
          rd         \* reader: [buf, pos, out, st]
vars == <<disk, whole, done, mode, pend, new, pc, sess, rd>>

Idle == [buf |-> <<>>, pos |-> 1, out |-> <<>>, st |-> "idle"]
Init == /\ disk = [main |-> None, tmp |-> None] /\ whole = TRUE /\ done = NoFile
        /\ mode = "none" /\ pend = <<>> /\ new = <<>> /\ pc = "idle" /\ sess = 0 /\ rd = Idle

Path == IF mode = "paranoid" THEN "tmp" ELSE "main"
(* ------------------------------------------------------------------- writing *)
Open(m) ==
  /\ pc = "idle" /\ rd.st = "idle" /\ sess < MaxSessions /\ sess' = sess + 1
  /\ (m = "append" /\ disk.main # None) => whole    \* appending after a crash is out of scope
  /\ mode' = m
  /\ disk' = (CASE m = "append" -> disk
                [] m = "overwrite" -> [disk EXCEPT !.main = None]
                [] m = "paranoid" -> [disk EXCEPT !.tmp = None])
  /\ new' = IF m = "append" /\ done # NoFile THEN done ELSE <<>>
  /\ done' = IF m = "overwrite" THEN NoFile ELSE done
  /\ pend' = IF m # "append" \/ disk.main = None THEN <<HDR>> ELSE <<>>
  /\ whole' = (whole /\ m = "paranoid")
  /\ pc' = "writing" /\ UNCHANGED rd
WriteField ==
  /\ pc = "writing" /\ pend # <<>>
  /\ disk' = [disk EXCEPT ![Path] = IF @ = None THEN <<Head(pend)>> ELSE Append(@, Head(pend))]
  /\ pend' = Tail(pend)
  /\ IF Len(pend) = 1 /\ mode # "paranoid" THEN done' = new ELSE UNCHANGED done
  /\ UNCHANGED <<whole, mode, new, pc, sess, rd>>
Dump ==
  /\ pc = "writing" /\ pend = <<>> /\ Len(new) < MaxRecords
  /\ \E r \in Rec : new' = Append(new, r) /\ pend' = Bytes(r)
  /\ UNCHANGED <<disk, whole, done, mode, pc, sess, rd>>
Close ==
  /\ pc = "writing" /\ pend = <<>>
  /\ IF mode # "paranoid" THEN pc' = "idle" /\ whole' = TRUE /\ done' = new /\ UNCHANGED disk
     ELSE IF DeleteFirst THEN disk' = [disk EXCEPT !.main = None] /\ pc' = "renaming" /\ UNCHANGED <<whole, done>>
     ELSE disk' = [main |-> disk.tmp, tmp |-> None] /\ pc' = "idle" /\ whole' = TRUE /\ done' = new
  /\ UNCHANGED <<mode, pend, new, sess, rd>>
Rename ==
  /\ pc = "renaming" /\ disk' = [main |-> disk.tmp, tmp |-> None] /\ pc' = "idle" /\ whole' = TRUE /\ done' = new
  /\ UNCHANGED <<mode, pend, new, sess, rd>>
Crash ==             \* the field being written may be cut in the middle
  /\ pc # "idle" /\ pc' = "idle" /\ pend' = <<>>
  /\ \/ UNCHANGED disk
     \/ pend # <<>> /\ disk' = [disk EXCEPT ![Path] = IF @ = None THEN <<-1>> ELSE Append(@, -1)]
  /\ UNCHANGED <<whole, done, mode, new, sess, rd>>

(* ------------------------------------------------------------------- reading *)
StartRead ==         \* of the file, or of any truncation of it
  /\ pc = "idle" /\ rd.st = "idle" /\ disk.main # None
  /\ \E c \in 0..Len(disk.main) : \E half \in BOOLEAN :
       rd' = [Idle EXCEPT !.st = "header", !.buf = SubSeq(disk.main, 1, c) \o (IF half /\ c < Len(disk.main) THEN <<-1>> ELSE <<>>)]
  /\ UNCHANGED <<disk, whole, done, mode, pend, new, pc, sess>>
Short(n) == rd.pos + n - 1 > Len(rd.buf) \/ \E k \in rd.pos..(rd.pos + n - 1) : rd.buf[k] = -1
Field(k) == IF rd.pos + k - 1 <= Len(rd.buf) THEN rd.buf[rd.pos + k - 1] ELSE 0   \* what an unchecked read would find
Read ==
  /\ rd.st \in {"header", "record"}
  /\ rd' = IF rd.st = "header"
           THEN IF Short(1) \/ Field(1) # HDR THEN [rd EXCEPT !.st = "abort"] ELSE [rd EXCEPT !.st = "record", !.pos = 2]
           ELSE IF Len(rd.out) > MaxRecords THEN [rd EXCEPT !.st = "abort"]
           ELSE IF CheckShort /\ (Short(3) \/ Short(3 + Field(3))) THEN [rd EXCEPT !.st = "abort"]
           ELSE IF Field(2) # 1 THEN [rd EXCEPT !.st = "abort"]
           ELSE [rd EXCEPT !.out = Append(@, <<Field(1), Field(3)>>), !.pos = @ + 3 + Field(3)]
  /\ UNCHANGED <<disk, whole, done, mode, pend, new, pc, sess>>
EndRead == rd.st = "abort" /\ rd' = Idle /\ UNCHANGED <<disk, whole, done, mode, pend, new, pc, sess>>

Next == \/ \E m \in {"append", "overwrite", "paranoid"} : Open(m)
        \/ WriteField \/ Dump \/ Close \/ Rename \/ Crash \/ StartRead \/ Read \/ EndRead
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
RECURSIVE Whole(_, _)
Whole(rs, n) == IF rs = <<>> \/ n < Len(Bytes(Head(rs))) THEN 0 ELSE 1 + Whole(Tail(rs), n - Len(Bytes(Head(rs))))
Good == Cardinality({k \in 1..Len(rd.buf) : rd.buf[k] # -1})   \* fields before the cut
Recs == IF done = NoFile THEN <<>> ELSE done

(* P14, P16: the public file is whole: as the last session left it, and while a *)
(* paranoid session runs, wherever it dies                                      *)
Contents == (whole /\ (pc = "idle" \/ mode = "paranoid"))
              => disk.main = (IF done = NoFile THEN None ELSE File(done))
(* P17: a reader returns records that were dumped, all that are whole, and stops *)
NeverMisread == IsPrefix(rd.out, Recs)
AllWhole == (rd.st = "abort" /\ Good >= 1) => Len(rd.out) >= Whole(Recs, Good - 1)
=============================================================================
