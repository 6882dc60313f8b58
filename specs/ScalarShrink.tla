----------------------------- MODULE ScalarShrink -----------------------------
(* Shrinks of integers, reals, booleans and characters (property C08).         *)
EXTENDS Word64
(* towards target: the target first, then half as far away from the value each *)
(* time, ending next to it                                                     *)
RECURSIVE Stepping(_, _, _)
Stepping(v, down, d) == IF d = Zero64 THEN <<>> ELSE <<IAdd(v, Int64(down, d))>> \o Stepping(v, down, Half(d))
Towards(v, t) == Stepping(v, ILt(t, v), Dist(v, t))
(* integers: towards zero; a negative one with a negation tries that second    *)
Integral(v, hasNegation) ==
  IF v[1] /\ hasNegation THEN <<IntZero, INeg(v)>> \o Tail(Towards(v, IntZero)) ELSE Towards(v, IntZero)
Boolean(b) == IF b THEN <<FALSE>> ELSE <<>>

(* reals: IEEE double bit patterns                                             *)
RNegative(w) == w[4] >= 32768
Magnitude(w) == <<w[1], w[2], w[3], w[4] % 32768>>
WithSign(neg, m) == IF neg THEN <<m[1], m[2], m[3], m[4] + 32768>> ELSE m
Exponent(w) == (w[4] % 32768) \div 16 - 1023
Truncated(w) == IF Exponent(w) < 0 THEN Zero64
                ELSE IF Exponent(w) >= 52 THEN Magnitude(w)
                ELSE Above(Magnitude(w), 52 - Exponent(w))
Real(w) ==
  LET m == Magnitude(w) neg == RNegative(w) IN
    (IF m # Zero64 THEN <<Zero64>> ELSE <<>>)
    \o (IF m # Zero64 /\ neg THEN <<m>> ELSE <<>>)
    \o (IF Lt(Truncated(w), m) THEN <<WithSign(neg, Truncated(w))>> ELSE <<>>)

(* characters, as code points: the simple ones, and the letter's lower case    *)
(* form, that come before the character itself                                 *)
IsLower(c) == c \in 97..122
IsUpper(c) == c \in 65..90
Simple(c) == <<97, 98, 99>> \o (IF IsLower(c) THEN <<>> ELSE IF IsUpper(c) THEN <<c + 32>> ELSE <<c>>)
             \o <<65, 66, 67, 49, 50, 51, 32, 10>>
Character(c) == LET s == Simple(c)
                    at == CHOOSE i \in 1..(Len(s) + 1) :
                            (i = Len(s) + 1 \/ s[i] = c) /\ \A j \in 1..(i - 1) : s[j] # c
                IN SubSeq(s, 1, at - 1)
===============================================================================
