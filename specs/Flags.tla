-------------------------------- MODULE Flags --------------------------------
(* A table of run-time settings: keys are created with a default value.        *)
EXTENDS Integers, Sequences, FiniteSets
(* a table is a function from keys to values                                    *)
Empty == [k \in {} |-> 0]
Keys(t) == DOMAIN t
CanCreate(t, k) == k \notin Keys(t)               \* any new key will do
Create(t, k, v) == [x \in Keys(t) \cup {k} |-> IF x = k THEN v ELSE t[x]]
CanUse(t, k) == k \in Keys(t)
Set(t, k, v) == [t EXCEPT ![k] = v]
Get(t, k) == t[k]
==============================================================================
