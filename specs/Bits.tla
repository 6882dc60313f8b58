--------------------------------- MODULE Bits ---------------------------------
(* Integers read from a stream of random words (property C21). The machine holds *)
(* the bits of the current word that have not been read; a read takes bits from  *)
(* there, lowest first, and asks the source for another word only when it needs  *)
(* more and has none. Bits carry their place in the source: the n-th bit is n.   *)
EXTENDS Scale
VARIABLES width,  \* bits per source word
          drawn,  \* words drawn so far
          buf,    \* unread bits of the current word
          want,   \* bits still to be read; -1: no read going on
          got     \* bits of this read, lowest first
bvars == <<width, drawn, buf, want, got>>
BInit(W) == width = W /\ drawn = 0 /\ buf = <<>> /\ want = -1 /\ got = <<>>
Read(n) == want = -1 /\ want' = n /\ got' = <<>> /\ UNCHANGED <<width, drawn, buf>>
Refill == /\ want > 0 /\ buf = <<>>
          /\ buf' = [i \in 1..width |-> drawn * width + i] /\ drawn' = drawn + 1 /\ UNCHANGED <<width, want, got>>
Take == /\ want > 0 /\ buf # <<>>
        /\ LET n == MinOf(want, Len(buf)) IN
           /\ got' = got \o SubSeq(buf, 1, n) /\ buf' = SubSeq(buf, n + 1, Len(buf)) /\ want' = want - n
        /\ UNCHANGED <<width, drawn>>
Finish == want = 0 /\ want' = -1 /\ UNCHANGED <<width, drawn, buf, got>>
-------------------------------------------------------------------------------
(* bits asked for by a read of a type of w bits with a size                     *)
SizedBits(w, size) == ScaleNat(w, size)
(* words needed for the first n bits                                            *)
WordsFor(n, W) == (n + W - 1) \div W
(* the bit at a place of a stream of words                                      *)
StreamBit(words, W, p) == Bit(words[(p - 1) \div W + 1], (p - 1) % W)
(* n bits from place p on as a 64-bit word; signed: the last bit fills the rest  *)
PlaceOf(bits, lo) == [i \in 1..16 |-> IF lo + i <= Len(bits) THEN bits[lo + i] * 2 ^ (i - 1) ELSE 0]
RECURSIVE SumOf(_, _)
SumOf(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumOf(s, i - 1)
FromBits(bits) == [k \in 1..4 |-> SumOf(PlaceOf(bits, 16 * (k - 1)), 16)]
Extend(bits, signed) == IF signed /\ Len(bits) > 0 /\ bits[Len(bits)] = 1
                        THEN bits \o [i \in 1..(64 - Len(bits)) |-> 1] ELSE bits
Value(words, W, from, n, signed) == FromBits(Extend([i \in 1..n |-> StreamBit(words, W, from + i)], signed))
(* ranges: comparison of 64-bit words as signed or unsigned numbers              *)
Flip(a) == [a EXCEPT ![4] = IF @ >= 32768 THEN @ - 32768 ELSE @ + 32768]
Less(a, b, signed) == IF signed THEN Lt(Flip(a), Flip(b)) ELSE Lt(a, b)
RangeSize(lo, hi, size) == Add(Scale64(Sub(Sub(hi, lo), One64), size), One64)
InRange(lo, hi, size, word) == Add(lo, Mod64(word, RangeSize(lo, hi, size)))
===============================================================================
