------------------------------- MODULE MCJobs -------------------------------
(* Several invocations of one program over a grid of jobs, each running the    *)
(* block it was given, in any interleaving: every point of the grid is visited *)
(* exactly once.  (Points, not only job numbers.)                              *)
EXTENDS Jobs
CONSTANTS MaxVars, MaxSteps, MaxBlocks

SizesSet == UNION {[1..k -> 1..MaxSteps] : k \in 0..MaxVars}
VARIABLES sizes, nb, pc, seen
vars == <<sizes, nb, pc, seen>>
n == NJobs(sizes)
(* pc[b]: next job of invocation b; invocations nb, nb+1 are one too many       *)
Init == /\ sizes \in SizesSet
        /\ nb \in 1..MaxBlocks
        /\ pc = [b \in 0..(nb + 1) |-> BlockFirst(n, nb, b)]
        /\ seen = <<>>
(* blocks are independent: they run in order of their number without loss of    *)
(* generality (the visits commute)                                              *)
Turn(b) == \A c \in 0..(b - 1) : pc[c] > BlockLast(n, nb, c)
Step(b) == /\ pc[b] <= BlockLast(n, nb, b) /\ pc[b] < n
           /\ Turn(b)
           /\ seen' = Append(seen, Point(sizes, pc[b]))
           /\ pc' = [pc EXCEPT ![b] = @ + 1]
           /\ UNCHANGED <<sizes, nb>>
Next == \E b \in DOMAIN pc : Step(b)
Spec == Init /\ [][Next]_vars

Grid == {p \in [1..Len(sizes) -> 0..(MaxSteps - 1)] : \A k \in 1..Len(sizes) : p[k] < sizes[k]}
OnlyOnce == \A j, k \in 1..Len(seen) : j # k => seen[j] # seen[k]
InGrid == \A k \in 1..Len(seen) : seen[k] \in Grid
Finished == \A b \in DOMAIN pc : pc[b] > BlockLast(n, nb, b)
AllVisited == Finished => {seen[k] : k \in 1..Len(seen)} = Grid
(* first variable fastest                                                       *)
Before(p, q) == \E k \in 1..Len(sizes) : p[k] < q[k] /\ \A j \in (k + 1)..Len(sizes) : p[j] = q[j]
InOrder == \A k \in 1..(Len(seen) - 1) : Before(seen[k], seen[k + 1])
=============================================================================
