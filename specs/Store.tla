------------------------------- MODULE Store -------------------------------
(* Storage of tensors: reference-counted blocks with copy-on-write.          *)
(*                                                                           *)
(* A store is [o |-> objects, h |-> heap].  o[s] is <<>> (no such object) or *)
(* <<[b, d, c]>>: the block it owns, its dimensions, whether complex.  h maps *)
(* the live blocks to [e: elements, refs: number of owners, own: is the      *)
(* memory ours to release].  MCStore checks that this design implements      *)
(* independent values; TraceStore checks that the library follows it.        *)
EXTENDS TensorAlgebra, TLC

EmptyHeap == [x \in {} |-> 0]
EmptyStore(slots) == [o |-> [s \in slots |-> <<>>], h |-> EmptyHeap]

Exists(st, s) == st.o[s] # <<>>
Obj(st, s) == st.o[s][1]
Block(st, s) == IF Exists(st, s) THEN Obj(st, s).b ELSE 0
Cell(st, s) == st.h[Block(st, s)]
Value(st, s) == LET x == Obj(st, s) IN Tensor(x.c, x.d, st.h[x.b].e)
Elts(st, s) == Len(Cell(st, s).e)

NewId(st) == CHOOSE n \in 1..(Cardinality(DOMAIN st.h) + 1) : n \notin DOMAIN st.h
RemoveBlock(h, b) == [x \in (DOMAIN h) \ {b} |-> h[x]]

(* give up one ownership of block b; the last owner releases it               *)
Release(st, b) ==
  IF st.h[b].refs = 1 THEN [st EXCEPT !.h = RemoveBlock(@, b)]
  ELSE [st EXCEPT !.h[b].refs = @ - 1]
AddRef(st, b) == [st EXCEPT !.h[b].refs = @ + 1]
Alloc(st, id, e, own) == [st EXCEPT !.h = (id :> [e |-> e, refs |-> 1, own |-> own]) @@ @]
SetObj(st, s, b, d, c) == [st EXCEPT !.o[s] = <<[b |-> b, d |-> d, c |-> c]>>]

Drop(st, s) == IF ~Exists(st, s) THEN st
               ELSE LET b == Block(st, s) IN Release([st EXCEPT !.o[s] = <<>>], b)
(* a new object in fresh storage, in the place of whatever s held             *)
Fresh(st, s, t, own) ==
  LET id == NewId(st)
      a == Alloc(st, id, t.e, own)
      r == IF Exists(a, s) THEN Release(a, Block(a, s)) ELSE a
  IN SetObj(r, s, id, t.d, t.c)
New(st, s, t) == Fresh(st, s, t, TRUE)
Borrow(st, s, t) == Fresh(st, s, t, FALSE)
(* s becomes another owner of the storage of t, with dimensions d             *)
ShareAs(st, s, t, d) ==
  LET b == Block(st, t)
      c == Obj(st, t).c
  IN IF Block(st, s) = b THEN SetObj(st, s, b, d, c)
     ELSE LET r == IF Exists(st, s) THEN Release(st, Block(st, s)) ELSE st
          IN SetObj(AddRef(r, b), s, b, d, c)
Share(st, s, t) == ShareAs(st, s, t, Obj(st, t).d)
(* before a write: a shared owner moves to a private copy                     *)
Detach(st, s) ==
  LET b == Block(st, s) IN
  IF st.h[b].refs = 1 THEN st
  ELSE LET id == NewId(st)
           x == Obj(st, s)
       IN SetObj(Release(Alloc(st, id, st.h[b].e, TRUE), b), s, id, x.d, x.c)
Write(st, s, k, v) == LET r == Detach(st, s) IN [r EXCEPT !.h[Block(r, s)].e[k] = v]
WriteAll(st, s, e) == LET r == Detach(st, s) IN [r EXCEPT !.h[Block(r, s)].e = e]
Redim(st, s, d) == [st EXCEPT !.o[s] = <<[@[1] EXCEPT !.d = d]>>]
Swap(st, s, t) == [st EXCEPT !.o = [@ EXCEPT ![s] = st.o[t], ![t] = st.o[s]]]

(* ------------------------------------------------------------ invariants *)
Owners(st, b) == {s \in DOMAIN st.o : Block(st, s) = b}
CountsExact(st) == \A b \in DOMAIN st.h : st.h[b].refs = Cardinality(Owners(st, b))
NoDangling(st) == \A s \in DOMAIN st.o : Exists(st, s) => Block(st, s) \in DOMAIN st.h
NoLeak(st) == \A b \in DOMAIN st.h : Owners(st, b) # {}
=============================================================================
