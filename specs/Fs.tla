--------------------------------- MODULE Fs ---------------------------------
(* A directory tree and the helpers that look at it and change it: the tree   *)
(* maps the paths that exist (sequences of names) to what is there.  A node   *)
(* is [k |-> kind, c |-> contents]: a file or a special file with the         *)
(* identity of its contents, a directory, or a symbolic link whose contents   *)
(* are the path it stands for (from the root of the tree).                    *)
EXTENDS Integers, Sequences, FiniteSets

Dir == [k |-> "dir", c |-> <<>>]
Nothing == [k |-> "none", c |-> <<>>]
At(fs, p) == IF p = <<>> THEN Dir ELSE IF p \in DOMAIN fs THEN fs[p] ELSE Nothing
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
NoPath == <<"">>

(* the path of a directory entry, links in front of it followed; NoPath when   *)
(* there is no such directory.  A link that leads to itself leads nowhere.     *)
RECURSIVE Real(_, _, _, _)
Real(fs, p, last, fuel) ==
  IF p = <<>> THEN p
  ELSE IF fuel = 0 THEN NoPath
  ELSE LET q == Real(fs, Parent(p), TRUE, fuel - 1) IN
       IF q = NoPath \/ At(fs, q).k # "dir" THEN NoPath
       ELSE LET r == Append(q, p[Len(p)])
                n == At(fs, r)
            IN IF last /\ n.k = "link" THEN Real(fs, n.c, TRUE, fuel - 1) ELSE r
Entry(fs, p) == Real(fs, p, FALSE, 12)      \* the entry itself
Target(fs, p) == Real(fs, p, TRUE, 12)      \* what it stands for
Node(fs, p) == IF Entry(fs, p) = NoPath THEN Nothing ELSE At(fs, Entry(fs, p))
Stat(fs, p) == IF Target(fs, p) = NoPath THEN Nothing ELSE At(fs, Target(fs, p))

Put(fs, p, n) == [q \in DOMAIN fs \union {p} |-> IF q = p THEN n ELSE fs[q]]
Drop(fs, p) == [q \in {x \in DOMAIN fs : ~Prefix(p, x)} |-> fs[q]]
Move(fs, p, q) ==
  LET g == Drop(fs, q)
      new(x) == IF Prefix(p, x) THEN q \o SubSeq(x, Len(p) + 1, Len(x)) ELSE x
      dom == {x \in DOMAIN fs : Prefix(p, x) \/ (~Prefix(q, x))}
      old(y) == CHOOSE x \in dom : new(x) = y
  IN [y \in {new(x) : x \in dom} |-> fs[old(y)]]
Empty(fs, p) == \A q \in DOMAIN fs : Prefix(p, q) => q = p

(* ---------------------------------------------------------------- helpers   *)
Yes(fs) == [st |-> fs, ret |-> TRUE, dies |-> FALSE]
No(fs) == [st |-> fs, ret |-> FALSE, dies |-> FALSE]
Refused(fs) == [st |-> fs, ret |-> FALSE, dies |-> TRUE]
Say(fs, b) == [st |-> fs, ret |-> b, dies |-> FALSE]

FileExists(fs, p) == Say(fs, Stat(fs, p).k # "none")
IsDir(fs, p) == Say(fs, Stat(fs, p).k = "dir")
MakeDirectory(fs, p) ==
  IF p = <<>> \/ Entry(fs, p) = NoPath \/ Node(fs, p) # Nothing THEN No(fs) ELSE Yes(Put(fs, Entry(fs, p), Dir))
DeleteFile(fs, p) ==
  IF Node(fs, p).k \in {"none", "dir"} THEN No(fs) ELSE Yes(Drop(fs, Entry(fs, p)))
RenameFile(fs, p, q, overwrite) ==
  IF Stat(fs, p).k = "none" \/ (Stat(fs, q).k # "none" /\ ~overwrite) THEN Refused(fs)
  ELSE IF p = <<>> \/ q = <<>> \/ Entry(fs, q) = NoPath THEN No(fs)
  ELSE LET a == Entry(fs, p)
           b == Entry(fs, q)
           m == At(fs, a)
           n == At(fs, b)
       IN IF a = b THEN Yes(fs)
          ELSE IF m.k = "dir"
               THEN IF Prefix(a, b) \/ (n.k # "none" /\ (n.k # "dir" \/ ~Empty(fs, b))) THEN No(fs) ELSE Yes(Move(fs, a, b))
               ELSE IF n.k = "dir" THEN No(fs) ELSE Yes(Move(fs, a, b))

(* ---------------------------------------------------------------- the tree  *)
WellFormed(fs) == \A p \in DOMAIN fs : Len(p) > 0 /\ At(fs, Parent(p)).k = "dir"
=============================================================================
