------------------------------ MODULE MCStore ------------------------------
(* Exhaustive check that the copy-on-write design of Store gives every object *)
(* the value of its own history (ghost val), exact owner counts, no leak and  *)
(* no dangling owner, in all histories over a few slots.                      *)
EXTENDS Store
CONSTANTS Slots, Lens, MaxBlocks
VARIABLES st, val

T(e) == Tensor(FALSE, <<Len(e)>>, e)
Zero(n) == [k \in 1..n |-> CZero]
Init == st = EmptyStore(Slots) /\ val = [s \in Slots |-> <<>>]

DoNew == \E s \in Slots, n \in Lens : /\ st' = New(st, s, T(Zero(n)))
                                      /\ val' = [val EXCEPT ![s] = <<Zero(n)>>]
DoBorrow == \E s \in Slots, n \in Lens : /\ st' = Borrow(st, s, T(Zero(n)))
                                         /\ val' = [val EXCEPT ![s] = <<Zero(n)>>]
DoShare == \E s, t \in Slots : /\ Exists(st, t)
                               /\ st' = Share(st, s, t)
                               /\ val' = [val EXCEPT ![s] = val[t]]
DoDrop == \E s \in Slots : /\ Exists(st, s)
                           /\ st' = Drop(st, s)
                           /\ val' = [val EXCEPT ![s] = <<>>]
DoWrite == \E s \in Slots : /\ Exists(st, s)
                            /\ \E k \in 1..Elts(st, s), v \in {CZero, COne} :
                                 /\ st' = Write(st, s, k, v)
                                 /\ val' = [val EXCEPT ![s][1][k] = v]
DoSwap == \E s, t \in Slots : st' = Swap(st, s, t) /\ val' = [val EXCEPT ![s] = val[t], ![t] = val[s]]
Next == DoNew \/ DoBorrow \/ DoShare \/ DoDrop \/ DoWrite \/ DoSwap
Spec == Init /\ [][Next]_<<st, val>>

Values == \A s \in Slots : IF Exists(st, s) THEN val[s] = <<Value(st, s).e>> ELSE val[s] = <<>>
Counts == CountsExact(st)
Dangling == NoDangling(st)
Leak == NoLeak(st)
(* a write changes at most the block of the writer; a sole owner keeps its    *)
(* block, and nobody else moves                                               *)
WriteMoves == [][ \A s \in Slots : \A k \in 1..2, v \in {CZero, COne} :
      (Exists(st, s) /\ k <= Elts(st, s) /\ st' = Write(st, s, k, v)) =>
         /\ \A t \in Slots \ {s} : Block(st', t) = Block(st, t)
         /\ (Cell(st, s).refs = 1 => Block(st', s) = Block(st, s))
         /\ (Cell(st, s).refs > 1 => Owners(st', Block(st', s)) = {s}) ]_<<st, val>>
Sym == Permutations(Slots)
(* unused block names are interchangeable, so blocks stay within MaxBlocks    *)
Bounded == \A b \in DOMAIN st.h : b <= MaxBlocks
=============================================================================
