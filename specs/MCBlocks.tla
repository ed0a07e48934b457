------------------------------ MODULE MCBlocks ------------------------------
(* find_blocks, the search for the block structure of a matrix (block_svd),   *)
(* element by element as the code does it, explored for every pattern of      *)
(* nonzero elements: the labels it ends with are the connected components of  *)
(* the graph whose nodes are rows and columns and whose edges are the nonzero *)
(* elements, and the count of blocks is theirs.                               *)
EXTENDS Num, TLC

CONSTANTS N, M,         \* rows, columns; the code transposes when N > M
          KeepCols      \* a variant (refuted): merging relabels the rows only

Empty == -1
VARIABLES pat, row, col, curr, set, rb, cb, nb
vars == <<pat, row, col, curr, set, rb, cb, nb>>

Init == /\ pat \in [1..N -> [1..M -> BOOLEAN]]
        /\ row = 1 /\ col = 1 /\ curr = 1 /\ set = FALSE
        /\ rb = [r \in 1..N |-> Empty] /\ cb = [c \in 1..M |-> Empty] /\ nb = 0

Relabel(f, from, to, upto) == [k \in DOMAIN f |-> IF k <= upto /\ f[k] = from THEN to ELSE f[k]]

Element ==
  /\ col <= M /\ row <= N
  /\ row' = row + 1
  /\ IF ~pat[row][col] THEN UNCHANGED <<curr, set, rb, cb, nb>>
     ELSE /\ set' = TRUE
          /\ IF rb[row] = Empty
             THEN rb' = [rb EXCEPT ![row] = curr] /\ UNCHANGED <<curr, cb, nb>>
             ELSE IF rb[row] # curr
             THEN /\ nb' = nb - 1
                  /\ rb' = Relabel(rb, curr, rb[row], N)
                  /\ cb' = IF KeepCols THEN cb ELSE Relabel(cb, curr, rb[row], col - 1)
                  /\ curr' = rb[row]
             ELSE UNCHANGED <<curr, rb, cb, nb>>
  /\ UNCHANGED <<pat, col>>

EndOfColumn ==
  /\ col <= M /\ row = N + 1
  /\ cb' = [cb EXCEPT ![col] = IF set THEN curr ELSE Empty]
  /\ nb' = IF set THEN nb + 1 ELSE nb
  /\ col' = col + 1 /\ curr' = col + 1 /\ row' = 1 /\ set' = FALSE
  /\ UNCHANGED <<pat, rb>>

Next == Element \/ EndOfColumn
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* nodes: 1..N rows, N+1..N+M columns                                         *)
Edge(a, b) == (a <= N /\ b > N /\ pat[a][b - N]) \/ (b <= N /\ a > N /\ pat[b][a - N])
RECURSIVE Grow(_)
Grow(S) == LET T == S \cup {b \in 1..(N + M) : \E a \in S : Edge(a, b)} IN IF T = S THEN S ELSE Grow(T)
Label(x) == IF x <= N THEN rb[x] ELSE cb[x - N]
Lonely(x) == \A y \in 1..(N + M) : ~Edge(x, y)
Components == {Grow({x}) : x \in {y \in 1..(N + M) : ~Lonely(y)}}

Right ==
  col > M =>
    /\ \A x \in 1..(N + M) : (Label(x) = Empty) <=> Lonely(x)
    /\ \A x, y \in 1..(N + M) : (~Lonely(x) /\ ~Lonely(y)) => ((Label(x) = Label(y)) <=> (y \in Grow({x})))
    /\ nb = Cardinality(Components)
=============================================================================
