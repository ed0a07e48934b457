------------------------------ MODULE TraceRand ------------------------------
(* Random numbers drawn from the real library, against the Mersenne Twister.    *)
(* Integers are recorded as the limbs of their 64-bit two's complement, reals x  *)
(* in [0,1) as the limbs of x*2^53 (<<>> if that is not an integer in range).     *)
EXTENDS MT, Json, IOUtils, TLC
Events == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r

P(w) == IF w = 64 THEN P64 ELSE P32
Extend(a) == [k \in 1..4 |-> IF k <= Len(a) THEN a[k] ELSE 0]        \* unsigned
SignExt(a) == [k \in 1..4 |-> IF k <= Len(a) THEN a[k] ELSE IF a[Len(a)] >= 32768 THEN 65535 ELSE 0]
Low32(a) == SubSeq(a, 1, 2)
IntW(w, a) == IF w = 64 THEN SignExt(Low32(ShR(a, 1))) ELSE Extend(ShR(a, 1))
UInt(a) == Extend(Low32(a))
Long(w, a) == Extend(ShR(a, 1))
ULong(a) == Extend(a)
(* 53 bits, from one word of 64 or two of 32                                     *)
RealWords(w) == IF w = 64 THEN 1 ELSE 2
Real53(w, x, k) ==
  IF w = 64 THEN ShR(x[k], 11)
  ELSE Add(ShL(Extend(ShR(x[k], 5)), 26), Extend(ShR(x[k + 1], 6)))

Dims(o) == ProdSeq(o.d)
(* numbers an operation takes from the sequence                                  *)
Uses(w, o) ==
  CASE o.o \in {"i", "u", "l", "U", "I1", "I2", "L1", "L2", "U1", "U2"} -> 1
    [] o.o \in {"f", "d", "D2", "h"} -> RealWords(w)
    [] o.o = "z" -> 2 * RealWords(w)
    [] o.o = "R" -> RealWords(w) * Dims(o)
    [] o.o = "C" -> 2 * RealWords(w) * Dims(o)
    [] o.o = "none" -> 0

Top53 == <<0, 0, 0, 32>>
InUnit(v) == Len(v) = 4 /\ Less(v, Top53)
(* a float is the real number within half a unit in its last place, and below 1  *)
FloatOk(v, K) == InUnit(v) /\ LET d == IF Less(v, K) THEN Minus(K, v) ELSE Minus(v, K)
                              IN ~Less(ShR(K, 24), d)
Offset(a, lo) == Add(a, OfInt(lo, 4))
MulSmall(a, n) == Mul(a, OfInt(n, 4))
Near26(v, K) == LET e == K[2] \div Pow2[11] + K[3] * Pow2[5] + (K[4] % 32) * Pow2[21] IN Near(v, e, 1)

(* what v must be for operation o whose first number is x[k]                      *)
Right(w, o, x, k, v) ==
  LET y == x[k]
      U32 == Extend(Low32(y))
      K(j) == Real53(w, x, k + j)
      rw == RealWords(w)
  IN CASE o.o = "i" -> v = IntW(w, y)
       [] o.o = "u" -> v = UInt(y)
       [] o.o = "l" -> v = Long(w, y)
       [] o.o = "U" -> v = ULong(y)
       [] o.o = "f" -> FloatOk(v, K(0))
       [] o.o = "d" -> v = K(0)
       [] o.o = "z" -> v \in {<<K(0), K(rw)>>, <<K(rw), K(0)>>}
       [] o.o = "I1" -> v = OfInt(Mod(U32, o.n), 4)
       [] o.o = "I2" -> v = OfInt(Mod(U32, o.n - o.m) + o.m, 4)
       [] o.o \in {"L1", "U1"} -> v = OfInt(Mod(ULong(y), o.n), 4)
       [] o.o \in {"L2", "U2"} -> v = OfInt(Mod(ULong(y), o.n - o.m) + o.m, 4)
       [] o.o = "D2" -> Len(v) = 2 /\ v[1] = 1 /\ Near26(v[2], K(0))
       [] o.o = "h" -> v = Extend(<<ShR(MulSmall(K(0), o.n), 53)[1]>>)
       [] o.o = "R" -> Len(v) = Dims(o) /\ \A j \in 1..Len(v) : v[j] = K(rw * (j - 1))
       [] o.o = "C" -> Len(v) = Dims(o) /\ \A j \in 1..Len(v) :
                          v[j] \in {<<K(2 * rw * (j - 1)), K(2 * rw * (j - 1) + rw)>>, <<K(2 * rw * (j - 1) + rw), K(2 * rw * (j - 1))>>}
       [] o.o = "none" -> TRUE

Seed(ev, s) ==
  LET p == P(ev.w)
  IN IF Has(s, "seed") THEN SubSeq(s.seed, 1, p.limbs) ELSE OfInt(s.env, p.limbs)
Segment(ev, s, got) ==
  LET w == ev.w
      p == P(w)
      n == Len(s.ops)
      pos == FoldLeft(LAMBDA acc, o : Append(acc, acc[Len(acc)] + Uses(w, o)), <<1>>, s.ops)
      total == pos[n + 1] - 1
      raw == Raw(p, Seed(ev, s), total)
      x == FoldLeft(LAMBDA acc, k : Append(acc, Temper(p, raw[k])), <<>>, [k \in 1..total |-> k])
      bad == {k \in 1..n : ~Right(w, s.ops[k], x, pos[k], got[k])}
  IN IF Len(got) # n THEN <<"numbers missing">>
     ELSE IF bad = {} THEN <<>>
     ELSE LET k == CHOOSE j \in bad : \A i \in bad : j <= i
          IN <<"draw", k, s.ops[k].o, "position", pos[k], "got", got[k]>>
RECURSIVE Segments(_, _)
Segments(ev, k) ==
  IF k > Len(ev.segs) THEN <<>>
  ELSE LET v == Segment(ev, ev.segs[k], ev.r.segs[k])
       IN IF v # <<>> THEN <<"seed", k>> \o v ELSE Segments(ev, k + 1)
Verdict(ev) ==
  IF Has(ev.r, "died") THEN <<"died">>
  ELSE IF ev.op = "twin" THEN IF ev.r.same THEN <<>> ELSE <<"the same seed gives another sequence">>
  ELSE IF ~ev.r.same THEN <<"the same seed gives another sequence">>
  ELSE Segments(ev, 1)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ LET v == Verdict(Events[i']) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id, v>>)
Spec == Init /\ [][Next]_i
==============================================================================
