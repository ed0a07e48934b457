----------------------------- MODULE TraceProg -----------------------------
(* Random programs over a pool of live tensors: the state is the value of each *)
(* object; a step replaces the value of one object by what the operation gives *)
(* for the values of its operands (TensorAlgebra) and leaves all others alone, *)
(* whatever storage they share.  The whole pool is compared after each step.   *)
EXTENDS TraceDense

Value(pool, s) ==        \* what the step gives: <<value>>, or <<>> when it has to be refused
  LET a == IF Has(s, "x") THEN [s EXCEPT !.x = pool[s.x + 1]] ELSE s
      b == IF Has(s, "y") THEN [a EXCEPT !.y = pool[s.y + 1]] ELSE a
  IN Exp(b)
RECURSIVE Steps(_, _, _)
Steps(steps, pool, k) == \* the first step that is wrong, or 0
  IF k > Len(steps) THEN 0
  ELSE LET v == Value(pool, steps[k]) IN
       IF v = <<>> \/ steps[k].pool # [pool EXCEPT ![steps[k].to + 1] = v[1]] THEN k
       ELSE Steps(steps, steps[k].pool, k + 1)
First(ev) ==
  IF Died(ev.r) THEN -1
  ELSE IF ev.r.start # [k \in 1..Len(ev.r.init) |-> Tensor(ev.r.init[k].c, ev.r.init[k].d, ev.r.init[k].e)] THEN -2
  ELSE Steps(ev.r.steps, ev.r.start, 1)

ProgNext == /\ i < Len(Events)
            /\ i' = i + 1
            /\ LET f == First(Events[i'])
                   e == Events[i']
               IN IF f = 0 THEN TRUE
                  ELSE PrintT(<<"BAD", e.id, f, IF f > 0 THEN [e.r.steps[f] EXCEPT !.pool = 0] ELSE 0>>)
=============================================================================
