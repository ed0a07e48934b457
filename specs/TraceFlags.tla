------------------------------ MODULE TraceFlags ------------------------------
(* Histories of operations on tables of flags of the real library.              *)
EXTENDS Flags, Json, IOUtils, TLC
Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r

(* st: tables 0, 1 (our own) and 2 (the global one); ks: the keys created, in    *)
(* order.  The global table already has a key of its own, called -1.             *)
NoTables == [n \in 0..2 |-> Empty]
RECURSIVE Play(_, _, _, _, _)
Play(ops, got, k, st, ks) ==
  IF k > Len(ops) THEN <<>>
  ELSE LET o == ops[k]
           t == o.t
           key(i) == IF i = -1 THEN -1 ELSE ks[t][i + 1]
           keep(T) == [st EXCEPT ![t] = T]
           v == got[k]
       IN IF Has(o, "bad") THEN IF k > Len(got) THEN <<>> ELSE <<"step", k, "a key never created is accepted">>
          ELSE IF k > Len(got) THEN <<"step", k, "refused">>
          ELSE IF o.o = "create" THEN
            IF v < 0 \/ ~CanCreate(st[t], v) \/ (t = 2 /\ v = ks[3][1]) THEN <<"step", k, "key not new", v>>
            ELSE Play(ops, got, k + 1, keep(Create(st[t], v, o.v)), [ks EXCEPT ![t] = Append(@, v)])
          ELSE IF o.o = "set" THEN
            IF v # 1 THEN <<"step", k, "set does not return its table">>
            ELSE Play(ops, got, k + 1, keep(Set(st[t], key(o.k), o.v)), ks)
          ELSE IF o.o = "set2" THEN Play(ops, got, k + 1, keep(Set(Set(st[t], key(o.k), o.v), key(o.k2), o.v + 1)), ks)
          ELSE IF o.o = "get" THEN
            IF v # Get(st[t], key(o.k)) THEN <<"step", k, "value", v, "wanted", Get(st[t], key(o.k))>>
            ELSE Play(ops, got, k + 1, st, ks)
          ELSE \* copy
            Play(ops, got, k + 1, [st EXCEPT ![0] = st[1]], [ks EXCEPT ![0] = ks[1]])

(* the first step of every history tells the number of the key called -1         *)
Verdict(ev) ==
  IF Has(ev.r, "died") THEN <<"died">>
  ELSE IF Len(ev.r.got) = 0 THEN <<"refused">>
  ELSE LET v == Play(ev.ops, ev.r.got, 2, [NoTables EXCEPT ![2] = Create(Empty, -1, 0)],
                     [n \in 0..3 |-> IF n = 3 THEN <<ev.r.got[1]>> ELSE <<>>])
           bad == Has(ev.ops[Len(ev.ops)], "bad")
       IN IF v # <<>> THEN v
          ELSE IF ev.r.st # (IF bad THEN -6 ELSE 0) THEN <<"status", ev.r.st>> ELSE <<>>

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ LET v == Verdict(Events[i']) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id, v>>)
Spec == Init /\ [][Next]_i
===============================================================================
