-------------------------------- MODULE Scale ---------------------------------
(* Integers scaled by the size of a case: x * size / 100, rounded half up, size *)
(* 100 and above meaning all of x; and remainders of 64-bit words.              *)
EXTENDS Word64
MinOf(a, b) == IF a < b THEN a ELSE b
Nominal == 100
(* the same for small numbers                                                   *)
ScaleNat(x, size) == (x * MinOf(size, Nominal) + Nominal \div 2) \div Nominal
(* x * k + c as five limbs; k and c are small                                   *)
RECURSIVE Times(_, _, _, _)
Times(x, k, c, i) == IF i > 4 THEN <<c>>
                     ELSE LET s == x[i] * k + c IN <<s % B16>> \o Times(x, k, s \div B16, i + 1)
(* limbs divided by a small number, from the highest one down                   *)
RECURSIVE Quotient(_, _, _)
Quotient(x, d, rem) == IF Len(x) = 0 THEN <<>>
                       ELSE LET h == rem * B16 + x[Len(x)] IN
                            Append(Quotient(SubSeq(x, 1, Len(x) - 1), d, h % d), h \div d)
Scale64(x, size) == SubSeq(Quotient(Times(x, MinOf(size, Nominal), Nominal \div 2, 1), Nominal, 0), 1, 4)
(* a mod m, bit by bit; m # 0                                                   *)
RECURSIVE ModFrom(_, _, _, _)
ModFrom(a, m, i, r) ==
  IF i < 0 THEN r
  ELSE LET over == Bit(r, 63) = 1
           d == LET b == Double(r) IN IF Bit(a, i) = 1 THEN Add(b, One64) ELSE b
           r2 == IF over \/ Le(m, d) THEN Sub(d, m) ELSE d
       IN ModFrom(a, m, i - 1, r2)
Mod64(a, m) == IF Lt(a, m) THEN a ELSE ModFrom(a, m, 63, Zero64)
===============================================================================
