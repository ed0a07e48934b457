-------------------------------- MODULE MCFs --------------------------------
(* Every history of the helpers on a small tree, with files, links and        *)
(* special files that others create.                                          *)
EXTENDS Fs
CONSTANTS Names, Depth, Kinds, Contents, MaxEntries, Slip    \* Slip: how a helper is wrong ("" for none)
VARIABLES fs, last          \* last: the latest helper, its arguments and answer
vars == <<fs, last>>
Paths == UNION {[1..n -> Names] : n \in 1..Depth}
Deep(f) == \E p \in DOMAIN f : Len(p) > Depth
Nil == [op |-> "none", p |-> <<>>, q |-> <<>>, ret |-> FALSE, dies |-> FALSE]

Init == fs = [p \in {} |-> Dir] /\ last = Nil
Plant(p, n) == /\ Entry(fs, p) # NoPath /\ Node(fs, p) = Nothing /\ Cardinality(DOMAIN fs) < MaxEntries
               /\ Len(Entry(fs, p)) <= Depth
               /\ fs' = Put(fs, Entry(fs, p), n) /\ last' = Nil
Call(op, p, q, x) == /\ ~Deep(x.st) /\ Cardinality(DOMAIN x.st) <= MaxEntries
                     /\ fs' = x.st
                     /\ last' = [op |-> op, p |-> p, q |-> q, ret |-> x.ret, dies |-> x.dies]
SlipDelete(p) == IF Slip = "tree" /\ Node(fs, p).k = "dir" THEN Yes(Drop(fs, Entry(fs, p)))
                 ELSE IF Slip = "follow" /\ Stat(fs, p).k \notin {"none", "dir"} THEN Yes(Drop(fs, Target(fs, p)))
                 ELSE DeleteFile(fs, p)
Next == \/ \E p \in Paths, k \in Kinds, c \in Contents : Plant(p, [k |-> k, c |-> <<c>>])
        \/ \E p \in Paths, t \in {q \in Paths : Len(q) = 1} : Plant(p, [k |-> "link", c |-> t])
        \/ \E p \in Paths : Call("exists", p, p, FileExists(fs, p))
        \/ \E p \in Paths : Call("isdir", p, p, IsDir(fs, p))
        \/ \E p \in Paths : Call("mkdir", p, p, MakeDirectory(fs, p))
        \/ \E p \in Paths : Call("delete", p, p, SlipDelete(p))
        \/ \E p, q \in Paths, o \in BOOLEAN : Call(IF o THEN "rename" ELSE "rename_new", p, q, RenameFile(fs, p, q, o))
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties  *)
Tree == WellFormed(fs)
Bag(f, n) == Cardinality({p \in DOMAIN f : f[p] = n})
Nodes(f) == {f[p] : p \in DOMAIN f}
(* what answers "no", only looks or refuses leaves everything as it was        *)
Harmless == [][(last'.op \in {"exists", "isdir"} \/ (last'.op # "none" /\ (~last'.ret \/ last'.dies))) => fs' = fs]_vars
(* a new directory is there, and it is empty; nothing else changes             *)
Made == [][(last'.op = "mkdir" /\ last'.ret) =>
            /\ IsDir(fs', last'.p).ret /\ ~FileExists(fs, last'.p).ret
            /\ \E e \in DOMAIN fs' : DOMAIN fs = DOMAIN fs' \ {e} /\ fs'[e] = Dir /\ \A x \in DOMAIN fs : fs'[x] = fs[x]]_vars
(* deleting takes one entry away, and never a directory                        *)
Deleted == [][(last'.op = "delete" /\ last'.ret) =>
               \E e \in DOMAIN fs : /\ fs[e].k # "dir" /\ DOMAIN fs' = DOMAIN fs \ {e} /\ \A x \in DOMAIN fs' : fs'[x] = fs[x]
                                    /\ e = Entry(fs, last'.p)]_vars
(* renaming keeps what is moved, loses at most the old destination, and leaves
   nothing under the old name                                                  *)
Renamed == [][(last'.op \in {"rename", "rename_new"} /\ last'.ret) =>
               LET m == Node(fs, last'.p)
                   n == Node(fs, last'.q)
                   same == Entry(fs, last'.p) = Entry(fs, last'.q)
               IN /\ At(fs', Entry(fs, last'.q)) = m
                  /\ (last'.op = "rename_new" => Stat(fs, last'.q) = Nothing)
                  /\ IF same THEN fs' = fs
                     ELSE /\ At(fs', Entry(fs, last'.p)) = Nothing
                          /\ \A x \in Nodes(fs) : Bag(fs', x) = Bag(fs, x) - (IF x = n THEN 1 ELSE 0)
                          /\ Nodes(fs') \subseteq Nodes(fs)]_vars
=============================================================================
