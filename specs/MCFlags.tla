------------------------------- MODULE MCFlags -------------------------------
(* The table as the library stores it (a vector of values, the key being the    *)
(* position) refines the abstract table: every history of up to MaxLen          *)
(* operations.                                                                  *)
EXTENDS Flags
CONSTANTS MaxKeys, Values
VARIABLES vec,      \* the stored vector
          tab,      \* the abstract table
          last      \* key of the latest creation, or -1
vars == <<vec, tab, last>>
Init == vec = <<>> /\ tab = Empty /\ last = -1
CreateKey(v) == /\ Len(vec) < MaxKeys
                /\ vec' = Append(vec, v)
                /\ last' = Len(vec)
                /\ tab' = Create(tab, Len(vec), v)
SetKey(k, v) == /\ k < Len(vec)
                /\ vec' = [vec EXCEPT ![k + 1] = v]
                /\ tab' = Set(tab, k, v)
                /\ last' = -1
Next == \/ \E v \in Values : CreateKey(v)
        \/ \E k \in 0..(MaxKeys - 1), v \in Values : SetKey(k, v)
Spec == Init /\ [][Next]_vars
Accepted == {k \in -1..(MaxKeys + 1) : k >= 0 /\ k < Len(vec)}
Refines == /\ Accepted = Keys(tab)
           /\ \A k \in Keys(tab) : vec[k + 1] = Get(tab, k)
Fresh == [][last' # -1 => CanCreate(tab, last')]_vars
(* nothing but the chosen key changes                                            *)
Independent == [][\A k \in Keys(tab) : tab'[k] # tab[k] => \A j \in Keys(tab) \ {k} : tab'[j] = tab[j]]_vars
==============================================================================
