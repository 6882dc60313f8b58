-------------------------------- MODULE Word64 --------------------------------
(* 64-bit words as four 16-bit limbs, least significant first (TLC integers    *)
(* have 32 bits), and integers as sign and magnitude: <<negative, word>>.      *)
EXTENDS Naturals, Integers, Sequences
B16 == 65536
Zero64 == <<0, 0, 0, 0>>
One64 == <<1, 0, 0, 0>>
Max64 == <<65535, 65535, 65535, 65535>>
IsWord(w) == Len(w) = 4 /\ \A i \in 1..4 : w[i] \in 0..65535
FromNat(n) == <<n % B16, n \div B16, 0, 0>>
(* comparison: a < b *)
Lt(a, b) == \/ a[4] < b[4]
            \/ a[4] = b[4] /\ \/ a[3] < b[3]
                              \/ a[3] = b[3] /\ \/ a[2] < b[2]
                                                \/ a[2] = b[2] /\ a[1] < b[1]
Le(a, b) == a = b \/ Lt(a, b)
(* modulo 2^64 *)
Add(a, b) == LET s1 == a[1] + b[1]
                 s2 == a[2] + b[2] + s1 \div B16
                 s3 == a[3] + b[3] + s2 \div B16
                 s4 == a[4] + b[4] + s3 \div B16
             IN <<s1 % B16, s2 % B16, s3 % B16, s4 % B16>>
Not64(a) == [i \in 1..4 |-> 65535 - a[i]]
Neg64(a) == Add(Not64(a), One64)
Sub(a, b) == Add(a, Neg64(b))
Half(a) == <<a[1] \div 2 + (a[2] % 2) * 32768, a[2] \div 2 + (a[3] % 2) * 32768,
             a[3] \div 2 + (a[4] % 2) * 32768, a[4] \div 2>>
Double(a) == Add(a, a)
Bit(a, i) == (a[i \div 16 + 1] \div 2 ^ (i % 16)) % 2          \* i in 0..63
RECURSIVE Shr(_, _)
Shr(a, n) == IF n = 0 THEN a ELSE IF n >= 16 THEN Shr(<<a[2], a[3], a[4], 0>>, n - 16)
             ELSE LET d == 2 ^ n m == 2 ^ (16 - n) IN
               <<a[1] \div d + (a[2] % d) * m, a[2] \div d + (a[3] % d) * m,
                 a[3] \div d + (a[4] % d) * m, a[4] \div d>>
RECURSIVE Shl(_, _)
Shl(a, n) == IF n = 0 THEN a ELSE IF n >= 16 THEN Shl(<<0, a[1], a[2], a[3]>>, n - 16)
             ELSE LET d == 2 ^ n m == 2 ^ (16 - n) IN
               <<(a[1] * d) % B16, ((a[2] * d) % B16) + a[1] \div m,
                 ((a[3] * d) % B16) + a[2] \div m, ((a[4] * d) % B16) + a[3] \div m>>
(* the low n bits *)
Low(a, n) == [i \in 1..4 |-> IF n >= 16 * i THEN a[i]
                             ELSE IF n <= 16 * (i - 1) THEN 0
                             ELSE a[i] % 2 ^ (n - 16 * (i - 1))]
(* everything but the low n bits *)
Above(a, n) == [i \in 1..4 |-> a[i] - Low(a, n)[i]]
(* bits of a and b where no bit is set in both *)
Or(a, b) == [i \in 1..4 |-> a[i] + b[i]]

-------------------------------------------------------------------------------
(* integers *)
Int64(neg, m) == <<neg /\ m # Zero64, m>>
IntZero == <<FALSE, Zero64>>
FromInt(n) == IF n < 0 THEN <<TRUE, FromNat(-n)>> ELSE <<FALSE, FromNat(n)>>
ToInt(x) == LET m == x[2][1] + B16 * x[2][2] IN IF x[1] THEN -m ELSE m  \* small ones only
ILt(x, y) == IF x[1] THEN (IF y[1] THEN Lt(y[2], x[2]) ELSE TRUE)
             ELSE IF y[1] THEN FALSE ELSE Lt(x[2], y[2])
INeg(x) == Int64(~x[1], x[2])
IAdd(x, y) == IF x[1] = y[1] THEN Int64(x[1], Add(x[2], y[2]))
              ELSE IF Lt(x[2], y[2]) THEN Int64(y[1], Sub(y[2], x[2])) ELSE Int64(x[1], Sub(x[2], y[2]))
(* distance; below 2^64 for two values of one integer type *)
Dist(x, y) == IF x[1] = y[1] THEN (IF Lt(x[2], y[2]) THEN Sub(y[2], x[2]) ELSE Sub(x[2], y[2]))
              ELSE Add(x[2], y[2])
===============================================================================
