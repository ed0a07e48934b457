------------------------------ MODULE Decimal ------------------------------
(* Natural numbers beyond the integers of TLC (and beyond a C int): sequences  *)
(* of limbs of four digits, the least significant first, without leading       *)
(* zeros; zero is <<>>.                                                        *)
EXTENDS Integers, Sequences

IsNat(a) == /\ \A k \in 1..Len(a) : a[k] >= 0 /\ a[k] < 10000
            /\ (a = <<>> \/ a[Len(a)] # 0)
RECURSIVE MulAdd(_, _, _)
MulAdd(a, m, c) ==        \* a * m + c, for 0 <= m, c <= 100000
  IF a = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % 10000>> \o MulAdd(<<>>, 1, c \div 10000)
  ELSE IF m = 0 THEN MulAdd(<<>>, 1, c)
  ELSE LET x == a[1] * m + c IN <<x % 10000>> \o MulAdd(Tail(a), m, x \div 10000)
RECURSIVE AddC(_, _, _)
AddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c
       IN <<x % 10000>> \o AddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div 10000)
Plus(a, b) == AddC(a, b, 0)
RECURSIVE Times(_, _)
Times(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET hi == Times(Tail(a), b) IN Plus(MulAdd(b, a[1], 0), IF hi = <<>> THEN hi ELSE <<0>> \o hi)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, k) == k > 0 /\ (a[k] < b[k] \/ (a[k] = b[k] /\ LessFrom(a, b, k - 1)))
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessFrom(a, b, Len(a)))

(* the text of a number: codes of characters                                   *)
Four(x) == <<48 + (x \div 1000), 48 + ((x \div 100) % 10), 48 + ((x \div 10) % 10), 48 + (x % 10)>>
RECURSIVE Limbs(_)
Limbs(a) == IF a = <<>> THEN <<>> ELSE Limbs(Tail(a)) \o Four(a[1])
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
DecText(a) == IF a = <<>> THEN <<48>> ELSE Strip(Limbs(a))

ASSUME Times(<<9999, 9999>>, <<9999, 9999>>) = <<1, 0, 9998, 9999>>
ASSUME Plus(<<9999, 9999>>, <<1>>) = <<0, 0, 1>>
ASSUME MulAdd(<<1, 2>>, 0, 10001) = <<1, 1>>
ASSUME Less(<<5, 1>>, <<4, 2>>) /\ ~Less(<<4, 2>>, <<4, 2>>) /\ Less(<<>>, <<1>>)
ASSUME DecText(<<7, 65, 1>>) = <<49, 48, 48, 54, 53, 48, 48, 48, 55>>
=============================================================================
