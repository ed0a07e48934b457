----------------------------- MODULE TraceStore -----------------------------
(* Conformance of histories: each event is one history of operations on the   *)
(* real library, with a projection of all objects after every step.  The      *)
(* history is replayed on the copy-on-write store of module Store.            *)
EXTENDS Store, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r

List(l) == Tensor(FALSE, <<Len(l)>>, [k \in 1..Len(l) |-> <<l[k], 0>>])
AsList(t) == [k \in 1..Len(t.e) |-> t.e[k][1]]
Iota0(n, m) == [k \in 1..m |-> <<n + k - 1, 0>>]
ZeroSeq(m) == [k \in 1..m |-> CZero]
RealPart(t) == Map1(FALSE, t, LAMBDA z : <<z[1], 0>>)
ImagPart(t) == Map1(FALSE, t, LAMBDA z : <<z[2], 0>>)

(* the value of r = f(...)                                                     *)
Fun(st, op) ==
  LET x == Value(st, op.t)
      y == Value(st, op.u)
      f == op.f
  IN CASE f = "neg" -> Map1(x.c, x, CNeg)
       [] f = "conj" -> Conj(x)
       [] f = "flatten" -> Flatten(x)
       [] f = "squeeze" -> Squeeze(x)
       [] f = "reshape" -> Reshape(x, op.d)
       [] f = "permute" -> Permute(x, op.i, op.j)
       [] f = "transpose" -> Transpose(x)
       [] f = "addn" -> Map1(x.c, x, LAMBDA z : CAdd(z, op.n))
       [] f = "muln" -> Map1(x.c, x, LAMBDA z : CMul(z, op.n))
       [] f = "add" -> Map2(x.c, x, y, CAdd)
       [] f = "sub" -> Map2(x.c, x, y, CSub)
       [] f = "mul" -> Map2(x.c, x, y, CMul)
       [] f = "view" -> View(x, op.rg)
       [] f = "chdim" -> ChangeDimension(x, op.i, op.m)
       [] f = "fold" -> Fold(x, op.i, y, op.j)
       [] f = "kron" -> Kron(x, y)

(* where a result lives is up to the library: in storage of its own, or shared *)
(* with an object of the same contents; ob.bk says which                       *)
Mates(st, op, ob) == IF ~Has(ob, "bk") THEN {}
  ELSE {x \in (DOMAIN st.o) \ {op.s} : Exists(st, x) /\ ob.bk[op.s] # "" /\ ob.bk[x] = ob.bk[op.s]}
Result(st, op, ob, t) ==
  LET m == {x \in Mates(st, op, ob) : Cell(st, x).e = t.e}
  IN IF m = {} THEN New(st, op.s, t)
     ELSE LET x == CHOOSE x \in m : TRUE
              r == ShareAs(st, op.s, x, t.d)
          IN SetObj(r, op.s, Block(r, op.s), t.d, t.c)
Modify(st, op, ob, t) ==
  LET m == {x \in Mates(st, op, ob) : Cell(st, x).e = t.e}
  IN IF m # {} THEN Result(st, op, ob, t)
     ELSE Redim(WriteAll(st, op.s, t.e), op.s, t.d)

Apply(st, op, ob) ==
  LET o == op.o
      S == Value(st, op.s)
      T == Value(st, op.t)
      U == Value(st, op.u)
  IN CASE o = "new" /\ Has(op, "x") -> New(st, op.s, op.x)
       [] o = "new" /\ Has(op, "l") -> New(st, op.s, List(op.l))
       [] o = "new" /\ Has(op, "m") -> New(st, op.s, List(<<op.m>>))
       [] o = "borrow" -> Borrow(st, op.s, op.x)
       [] o = "newI" -> LET d == AsList(U) IN New(st, op.s, Tensor(op.c, d, Iota0(op.n, Size(d))))
       [] o = "def" -> New(st, op.s, Tensor(op.c, op.d, <<>>))
       [] o \in {"copy", "assign", "toV", "fromV"} ->
             IF Elts(st, op.t) = 0 THEN New(st, op.s, IF o \in {"toV", "fromV"} THEN Flatten(T) ELSE T)
             ELSE ShareAs(st, op.s, op.t, IF o \in {"toV", "fromV"} THEN <<NElems(T)>> ELSE T.d)
       [] o = "drop" -> Drop(st, op.s)
       [] o = "swap" -> Swap(st, op.s, op.t)
       [] o = "set" -> Write(st, op.s, 1 + Offset(Strides(S.d), NormAll(op.i, S.d)), op.n)
       [] o \in {"setseq", "setit"} -> Write(st, op.s, op.k + 1, op.n)
       [] o = "setend" -> Write(st, op.s, Elts(st, op.s) - op.k, op.n)
       [] o = "pset" -> [st EXCEPT !.h[Block(st, op.s)].e[1] = op.n]   \* pointers share what they point to
       [] o = "fill" -> Modify(st, op, ob, Map1(S.c, S, LAMBDA z : op.n))
       [] o = "reshapeI" -> Modify(st, op, ob, Reshape(S, AsList(U)))
       [] o = "reshaped" -> Modify(st, op, ob, Reshape(S, op.d))
       [] o = "ctorI" -> Result(st, op, ob, Reshape(T, AsList(U)))
       [] o = "+=t" -> Modify(st, op, ob, Map2(S.c, S, T, CAdd))
       [] o = "+=R" -> Modify(st, op, ob, Map2(S.c, S, T, CAdd))
       [] o = "-=t" -> Modify(st, op, ob, Map2(S.c, S, T, CSub))
       [] o = "*=t" -> Modify(st, op, ob, Map2(S.c, S, T, CMul))
       [] o = "+=n" -> Modify(st, op, ob, Map1(S.c, S, LAMBDA z : CAdd(z, op.n)))
       [] o = "*=n" -> Modify(st, op, ob, Map1(S.c, S, LAMBDA z : CMul(z, op.n)))
       [] o = "vsett" -> Modify(st, op, ob, Assign(S, op.rg, T.e))
       [] o = "vsetv" -> Modify(st, op, ob, Assign(S, op.rg, View(T, op.rg2).e))
       [] o = "vsetn" -> Modify(st, op, ob, Assign(S, op.rg, [k \in 1..Len(Selected(S, op.rg)) |-> op.n]))
       [] o = "f" -> Result(st, op, ob, Fun(st, op))
       [] o = "fold_into" -> Result(st, op, ob, Fold(T, op.i, U, op.j))
       [] o = "foldin_into" -> Result(st, op, ob, FoldIn(T, op.i, U, op.j))
       [] o = "mmult_into" -> Result(st, op, ob, MMult(T, U))
       [] o = "dimsof" -> Result(st, op, ob, List(T.d))
       [] o = "concat" -> Result(st, op, ob, List(AsList(T) \o AsList(U)))
       [] o \in {"tocomplex", "coerce"} -> Result(st, op, ob, Tensor(TRUE, T.d, T.e))
       [] o = "realpart" -> Result(st, op, ob, RealPart(T))
       [] o = "imagpart" -> Result(st, op, ob, ImagPart(T))
       [] o = "resize" -> Result(st, op, ob, Tensor(FALSE, <<op.m>>, ZeroSeq(op.m)))
       [] o \in {"mksp", "full"} -> Result(st, op, ob, T)
       [] o = "sadd" -> Result(st, op, ob, Map2(FALSE, T, U, CAdd))
       [] o = "ssub" -> Result(st, op, ob, Map2(FALSE, T, U, CSub))
       [] o = "smuln" -> Result(st, op, ob, Map1(FALSE, T, LAMBDA z : CMul(z, op.n)))
       [] o = "stran" -> Result(st, op, ob, Transpose(T))
       \* these leave every object as it is
       [] o \in {"byval", "vec", "poke", "svd", "solve", "resize_fail"} -> st

(* what the projection after a step has to show                                *)
Changed(slots, st, st2) ==
  {s \in slots : (Exists(st, s) # Exists(st2, s)) \/ (Exists(st2, s) /\ Value(st, s) # Value(st2, s))}
ValuesOK(slots, st, st2, ob) ==
  \A s \in slots : IF s \in DOMAIN ob.v THEN ob.v[s] = (IF Exists(st2, s) THEN <<Value(st2, s)>> ELSE <<>>)
                   ELSE Exists(st, s) = Exists(st2, s) /\ (Exists(st2, s) => Value(st, s) = Value(st2, s))
Sized(st, s) == Exists(st, s) /\ Elts(st, s) > 0
First(order, st, s) == CHOOSE k \in 1..Len(order) :
     /\ Sized(st, order[k]) /\ Block(st, order[k]) = Block(st, s)
     /\ \A m \in 1..(k - 1) : Block(st, order[m]) # Block(st, s)
WriteOps == {"set", "setseq", "setit", "setend"}
Targets(op) == IF op.o = "swap" THEN {op.s, op.t}
               ELSE IF op.o \in {"byval", "vec", "poke", "svd", "solve", "pset", "resize_fail"} THEN {} ELSE {op.s}
SharingOK(ev, st, st2, op, ob) ==
  LET slots == {ev.slots[k] : k \in 1..Len(ev.slots)} IN
  /\ \A s \in slots : ob.bk[s] = IF Sized(st2, s) THEN ev.slots[First(ev.slots, st2, s)] ELSE ""
  /\ ev.mode = "share" => \A s \in slots : ob.rc[s] = IF Sized(st2, s) THEN Cell(st2, s).refs ELSE 0
  /\ \A k \in 1..Len(ob.mv) : ob.mv[k] \in Targets(op)      \* nobody else's storage moves
  /\ (op.o \in WriteOps /\ Cell(st, op.s).refs = 1) => Len(ob.mv) = 0   \* a sole owner writes in place
  /\ ob.live = Cardinality({b \in DOMAIN st2.h : st2.h[b].own /\ Len(st2.h[b].e) > 0})

RECURSIVE Run(_, _, _)
Run(ev, st, k) ==   \* the first step that is not allowed, or 0
  IF k > Len(ev.ops) THEN 0
  ELSE LET op == ev.ops[k]
           ob == ev.r.steps[k]
           st2 == Apply(st, op, ob)
           slots == {ev.slots[m] : m \in 1..Len(ev.slots)}
       IN IF /\ CountsExact(st2) /\ NoLeak(st2) /\ NoDangling(st2)
             /\ ValuesOK(slots, st, st2, ob)
             /\ (ev.mode \in {"share", "ptr"} => SharingOK(ev, st, st2, op, ob))
          THEN Run(ev, st2, k + 1) ELSE k

Verdict(ev) ==
  IF Has(ev.r, "died") THEN <<"died">>
  ELSE IF Len(ev.r.steps) # Len(ev.ops) THEN <<"steps">>
  ELSE LET k == Run(ev, EmptyStore({ev.slots[m] : m \in 1..Len(ev.slots)}), 1)
       IN IF k # 0 THEN <<"step", k>>
          ELSE IF ev.r.left # 0 THEN <<"leak">> ELSE <<>>

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ LET v == Verdict(Events[i']) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
