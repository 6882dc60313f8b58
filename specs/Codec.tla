-------------------------------- MODULE Codec --------------------------------
(* The encodings of RapidCheck (property C14), over sequences of bytes.         *)
(*   le  w : integer of w bytes, least significant first                        *)
(*   var w : integer of w bits in groups of 7, least significant first, the     *)
(*           high bit set in all groups but the last                            *)
(*   str   : var 64 length, bytes                                               *)
(*   vec w : var 64 length, var w elements                                      *)
(*   fix w : as many le w integers as are asked for                             *)
(*   rnd   : random state: 4 words of key, var 64 path bits, var 64 counter,    *)
(*           one byte: number of path bits (<= 64)                              *)
(*   rep   : rnd, le 4 size, vec 64 shrink path                                 *)
(*   map   : var 64 length, pairs of str and rep                                *)
(* Integers are words (Word64) of the unsigned type of the same width.          *)
EXTENDS Word64, FiniteSets, TLC
CONSTANT PathBits \* of a random state
-------------------------------------------------------------------------------
LEBytes(v, n) == [j \in 1..n |-> IF j % 2 = 1 THEN v[(j + 1) \div 2] % 256 ELSE v[j \div 2] \div 256]
RECURSIVE EncVar(_)
EncVar(v) == LET rest == Shr(v, 7) g == v[1] % 128 IN
             IF rest = Zero64 THEN <<g>> ELSE <<g + 128>> \o EncVar(rest)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
EncStr(s) == EncVar(FromNat(Len(s))) \o s
EncVec(v) == EncVar(FromNat(Len(v))) \o Concat([j \in 1..Len(v) |-> EncVar(v[j])])
EncRnd(r) == Concat([j \in 1..4 |-> LEBytes(r.key[j], 8)]) \o EncVar(r.bits) \o EncVar(r.counter) \o <<r.bitsi>>
EncRep(p) == EncRnd(p.rnd) \o LEBytes(p.size, 4) \o EncVec(p.path)
EncMap(m) == EncVar(FromNat(Len(m))) \o Concat([j \in 1..Len(m) |-> EncStr(m[j].k) \o EncRep(m[j].v)])
Enc(ty, w, v) == CASE ty = "le" -> LEBytes(v, w)
                   [] ty = "var" -> EncVar(v)
                   [] ty = "str" -> EncStr(v)
                   [] ty = "vec" -> EncVec(v)
                   [] ty = "fix" -> Concat([j \in 1..Len(v) |-> LEBytes(v[j], w)])
                   [] ty = "rnd" -> EncRnd(v)
                   [] ty = "rep" -> EncRep(v)
                   [] ty = "map" -> EncMap(v)
-------------------------------------------------------------------------------
(* Decoding b from position i. ok: there is a value; v, i: the value and the    *)
(* position after it; c: this is how the value is encoded (if not, a decoder    *)
(* may as well refuse)                                                          *)
Err == [ok |-> FALSE, v |-> <<>>, i |-> 0, c |-> FALSE]
Ok(v, i, c) == [ok |-> TRUE, v |-> v, i |-> i, c |-> c]
FromLE(s) == [j \in 1..4 |-> (IF 2 * j - 1 <= Len(s) THEN s[2 * j - 1] ELSE 0) + 256 * (IF 2 * j <= Len(s) THEN s[2 * j] ELSE 0)]
DecLE(b, i, n) == IF i + n - 1 > Len(b) THEN Err ELSE Ok(FromLE(SubSeq(b, i, i + n - 1)), i + n, TRUE)
(* g: number of groups read so far                                              *)
RECURSIVE DecVarFrom(_, _, _, _, _)
DecVarFrom(b, i, w, g, acc) ==
  IF i > Len(b) THEN Err
  ELSE LET x == b[i] % 128 room == w - 7 * g IN
       IF room <= 0 /\ x # 0 THEN Err
       ELSE IF room > 0 /\ room < 7 /\ x \div 2 ^ room # 0 THEN Err
       ELSE LET a == IF room <= 0 THEN acc ELSE Or(acc, Shl(FromNat(x), 7 * g)) IN
            IF b[i] >= 128 THEN (IF g > 30 THEN Err ELSE DecVarFrom(b, i + 1, w, g + 1, a))
            ELSE Ok(a, i + 1, g = 0 \/ x # 0)
DecVar(b, i, w) == DecVarFrom(b, i, w, 0, Zero64)
IsSmall(v) == v[3] = 0 /\ v[4] = 0 /\ v[2] < 16384
Nat64(v) == v[1] + B16 * v[2]
DecStr(b, i) == LET n == DecVar(b, i, 64) IN
                IF ~n.ok \/ ~IsSmall(n.v) THEN Err
                ELSE LET m == Nat64(n.v) IN
                     IF n.i + m - 1 > Len(b) THEN Err ELSE Ok(SubSeq(b, n.i, n.i + m - 1), n.i + m, n.c)
RECURSIVE DecVarsFrom(_, _, _, _, _)
DecVarsFrom(b, w, n, acc, c) ==   \* acc: result so far
  IF n = 0 THEN acc
  ELSE LET e == DecVar(b, acc.i, w) IN
       IF ~e.ok THEN Err ELSE DecVarsFrom(b, w, n - 1, Ok(Append(acc.v, e.v), e.i, acc.c /\ e.c), c)
DecVec(b, i, w) == LET n == DecVar(b, i, 64) IN
                   IF ~n.ok \/ ~IsSmall(n.v) \/ Nat64(n.v) > Len(b) THEN Err
                   ELSE DecVarsFrom(b, w, Nat64(n.v), Ok(<<>>, n.i, n.c), TRUE)
RECURSIVE DecFix(_, _, _, _)
DecFix(b, w, n, acc) == IF n = 0 THEN acc
                        ELSE LET e == DecLE(b, acc.i, w) IN
                             IF ~e.ok THEN Err ELSE DecFix(b, w, n - 1, Ok(Append(acc.v, e.v), e.i, TRUE))
DecRnd(b, i) ==
  IF i + 31 > Len(b) THEN Err
  ELSE LET key == [j \in 1..4 |-> FromLE(SubSeq(b, i + 8 * (j - 1), i + 8 * j - 1))]
           bits == DecVar(b, i + 32, 64)
       IN IF ~bits.ok THEN Err
          ELSE LET cnt == DecVar(b, bits.i, 64) IN
               IF ~cnt.ok \/ cnt.i > Len(b) THEN Err
               ELSE IF b[cnt.i] > PathBits THEN Err
               ELSE Ok([key |-> key, bits |-> bits.v, counter |-> cnt.v, bitsi |-> b[cnt.i]], cnt.i + 1,
                       bits.c /\ cnt.c /\ Above(bits.v, b[cnt.i]) = Zero64)
DecRep(b, i) ==
  LET r == DecRnd(b, i) IN
  IF ~r.ok THEN Err
  ELSE LET z == DecLE(b, r.i, 4) IN
       IF ~z.ok THEN Err
       ELSE LET p == DecVec(b, z.i, 64) IN
            IF ~p.ok THEN Err
            ELSE Ok([rnd |-> r.v, size |-> z.v, path |-> p.v], p.i, r.c /\ p.c /\ z.v[2] < 32768)
(* the first pair of a key counts; pairs are read until there are n keys        *)
RECURSIVE DecPairs(_, _, _)
DecPairs(b, n, acc) ==
  IF Len(acc.v) = n THEN acc
  ELSE LET k == DecStr(b, acc.i) IN
       IF ~k.ok THEN Err
       ELSE LET p == DecRep(b, k.i) IN
            IF ~p.ok THEN Err
            ELSE LET dup == \E j \in 1..Len(acc.v) : acc.v[j].k = k.v IN
                 DecPairs(b, n, Ok(IF dup THEN acc.v ELSE Append(acc.v, [k |-> k.v, v |-> p.v]), p.i,
                                   acc.c /\ k.c /\ p.c /\ ~dup))
DecMap(b, i) == LET n == DecVar(b, i, 64) IN
                IF ~n.ok \/ ~IsSmall(n.v) \/ Nat64(n.v) > Len(b) THEN Err
                ELSE DecPairs(b, Nat64(n.v), Ok(<<>>, n.i, n.c))
Dec(ty, w, n, b) == CASE ty = "le" -> DecLE(b, 1, w)
                      [] ty = "var" -> DecVar(b, 1, w)
                      [] ty = "str" -> DecStr(b, 1)
                      [] ty = "vec" -> DecVec(b, 1, w)
                      [] ty = "fix" -> DecFix(b, w, n, Ok(<<>>, 1, TRUE))
                      [] ty = "rnd" -> DecRnd(b, 1)
                      [] ty = "rep" -> DecRep(b, 1)
                      [] ty = "map" -> DecMap(b, 1)
-------------------------------------------------------------------------------
(* Text: three bytes are four characters of six bits, least significant first.  *)
(* Characters are their codes.                                                  *)
Alphabet == [d \in 0..63 |-> IF d < 26 THEN 65 + d ELSE IF d < 52 THEN 97 + d - 26
                             ELSE IF d < 62 THEN 48 + d - 52 ELSE IF d = 62 THEN 43 ELSE 95]
DigitOf(c) == CASE c >= 65 /\ c <= 90 -> c - 65
                [] c >= 97 /\ c <= 122 -> c - 97 + 26
                [] c >= 48 /\ c <= 57 -> c - 48 + 52
                [] c = 43 -> 62
                [] c = 95 -> 63
                [] OTHER -> 64
Group(b, i) == LET n == IF Len(b) - i + 1 > 3 THEN 3 ELSE Len(b) - i + 1
                   x == b[i] + (IF n > 1 THEN 256 * b[i + 1] ELSE 0) + (IF n > 2 THEN 65536 * b[i + 2] ELSE 0)
               IN [j \in 1..(n + 1) |-> Alphabet[(x \div 64 ^ (j - 1)) % 64]]
ToText(b) == Concat([k \in 1..((Len(b) + 2) \div 3) |-> Group(b, 3 * k - 2)])
Ungroup(t, i) == LET n == IF Len(t) - i + 1 > 4 THEN 4 ELSE Len(t) - i + 1
                     d == [j \in 1..n |-> DigitOf(t[i + j - 1])]
                     x == d[1] + 64 * d[2] + (IF n > 2 THEN 4096 * d[3] ELSE 0) + (IF n > 3 THEN 262144 * d[4] ELSE 0)
                 IN [j \in 1..(n - 1) |-> (x \div 256 ^ (j - 1)) % 256]
FromText(t) == IF Len(t) % 4 = 1 \/ \E i \in 1..Len(t) : DigitOf(t[i]) = 64 THEN Err
               ELSE LET b == Concat([k \in 1..((Len(t) + 3) \div 4) |-> Ungroup(t, 4 * k - 3)]) IN
                    Ok(b, Len(t) + 1, ToText(b) = t)
===============================================================================
