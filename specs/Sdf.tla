-------------------------------- MODULE Sdf --------------------------------
(* Data files.  A file is a sequence of records [t, name, v]; numbers are the  *)
(* bytes of their IEEE representation (least significant first), so equality   *)
(* is equality bit for bit.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NameSize == 63                       \* significant characters of a name
CutName(n) == IF Len(n) > NameSize THEN SubSeq(n, 1, NameSize) ELSE n

(* ------------------------------------------------ integers and IEEE doubles *)
Pow2(k) == 2 ^ k
Bit(b, j) == IF j < 0 \/ j \div 8 >= Len(b) THEN 0 ELSE (b[(j \div 8) + 1] \div Pow2(j % 8)) % 2
Byte(f(_), k) ==                     \* byte k (from 1) of the number with bits f
  LET r[m \in -1..7] == IF m = -1 THEN 0 ELSE r[m - 1] + Pow2(m) * f(8 * (k - 1) + m) IN r[7]
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>

RECURSIVE Top(_, _)
Top(b, j) == IF j < 0 THEN -1 ELSE IF Bit(b, j) = 1 THEN j ELSE Top(b, j - 1)
TopBit(b) == Top(b, 8 * Len(b) - 1)  \* position of the highest bit, or -1

(* the double nearest in magnitude to the unsigned number b; Exact says whether it is equal *)
Exact(b) == LET e == TopBit(b) IN \A j \in 0..63 : j < e - 52 => Bit(b, j) = 0
EncodeU(sign, b) ==
  LET e == TopBit(b)
      x == 1023 + e
      f(j) == IF j = 63 THEN sign
              ELSE IF j >= 52 THEN (x \div Pow2(j - 52)) % 2
              ELSE IF e - 52 + j >= 0 THEN Bit(b, e - 52 + j) ELSE 0
  IN IF e = -1 THEN Zero8 ELSE [k \in 1..8 |-> Byte(f, k)]

RECURSIVE NegB(_, _)
NegB(b, carry) ==                    \* two's complement
  IF b = <<>> THEN <<>>
  ELSE LET x == 255 - b[1] + carry IN <<x % 256>> \o NegB(Tail(b), x \div 256)
Neg(b) == NegB(b, 1)
IntToDouble(b) == IF Bit(b, 31) = 1 THEN EncodeU(1, Neg(b)) ELSE EncodeU(0, b)

Sign(d) == Bit(d, 63)
Exponent(d) == (d[8] % 128) * 16 + d[7] \div 16 - 1023
IsZero(d) == \A j \in 0..62 : Bit(d, j) = 0
Integral(d) == \/ IsZero(d)
               \/ LET e == Exponent(d) IN e >= 0 /\ e <= 63 /\ \A j \in 0..51 : j < 52 - e => Bit(d, j) = 0
Magnitude(d) ==                      \* of an integral double, 8 bytes
  LET e == Exponent(d)
      f(j) == IF j = e THEN 1 ELSE IF j > e \/ j < e - 52 THEN 0 ELSE Bit(d, j - e + 52)
  IN IF IsZero(d) THEN Zero8 ELSE [k \in 1..8 |-> Byte(f, k)]
Low(b, n) == SubSeq(b, 1, n)
IsInt(d) == Integral(d) /\ LET m == Magnitude(d) IN
              \/ TopBit(m) <= 30
              \/ TopBit(m) = 31 /\ Sign(d) = 1 /\ \A j \in 0..30 : Bit(m, j) = 0
AsInt(d) == LET m == Low(Magnitude(d), 4) IN IF Sign(d) = 1 /\ ~IsZero(d) THEN Neg(m) ELSE m
IsSize(d) == Integral(d) /\ (IsZero(d) \/ Sign(d) = 0)
AsSize(d) == Magnitude(d)

(* --------------------------------------------------------------- the records *)
Scalar(e) == [d |-> <<1>>, e |-> <<e>>]
Record(st) ==                        \* what dump(st.v, st.name) stores
  LET t == st.t
      kind == CASE t \in {"i", "d"} -> "R" [] t = "c" -> "C"
                [] t = "z" -> IF Exact(st.v) THEN "R" ELSE "Z" [] OTHER -> t
      val == CASE t = "i" -> Scalar(<<IntToDouble(st.v)>>)
               [] t = "z" -> IF Exact(st.v) THEN Scalar(<<EncodeU(0, st.v)>>) ELSE st.v
               [] t = "d" -> Scalar(<<st.v>>)
               [] t = "c" -> Scalar(st.v)
               [] OTHER -> st.v
  IN [t |-> kind, name |-> st.name, v |-> val]

NameOK(rec, name) == name = <<>> \/ CutName(name) = CutName(rec.name)
One(rec) == Len(rec.v.e) = 1
Fits(rec, t) ==                      \* is rec a record of the requested type?
  CASE t \in {"R", "C", "RV", "CV"} -> rec.t = t
    [] t = "d" -> rec.t = "R" /\ One(rec)
    [] t = "c" -> rec.t = "C" /\ One(rec)
    [] t = "i" -> rec.t = "R" /\ One(rec) /\ IsInt(rec.v.e[1][1])
    [] t = "z" -> rec.t = "Z" \/ (rec.t = "R" /\ One(rec) /\ IsSize(rec.v.e[1][1]))
Loaded(rec, t) ==                    \* and the value it gives
  CASE t \in {"R", "C", "RV", "CV"} -> rec.v
    [] t = "d" -> rec.v.e[1][1]
    [] t = "c" -> rec.v.e[1]
    [] t = "i" -> AsInt(rec.v.e[1][1])
    [] t = "z" -> IF rec.t = "Z" THEN rec.v ELSE AsSize(rec.v.e[1][1])

(* loading "steps" from a file with records recs: the results, and whether the *)
(* library refuses the first request it cannot serve                           *)
RECURSIVE LoadAll(_, _, _)
LoadAll(recs, steps, k) ==           \* [out, dies]
  IF k > Len(steps) THEN [out |-> <<>>, dies |-> FALSE]
  ELSE IF k > Len(recs) \/ ~NameOK(recs[k], steps[k].name) \/ ~Fits(recs[k], steps[k].t)
       THEN [out |-> <<>>, dies |-> TRUE]
       ELSE LET rest == LoadAll(recs, steps, k + 1)
            IN [out |-> <<<<Loaded(recs[k], steps[k].t)>>>> \o rest.out, dies |-> rest.dies]
=============================================================================
