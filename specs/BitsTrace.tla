------------------------------- MODULE BitsTrace ------------------------------
(* cfg: width of the source words and the words of the source                   *)
(* read [w, sg, n, v, used]: bits of a type of w bits; words drawn so far        *)
(* sized [w, sg, size, v, used]   flag [v, used]: a truth value                  *)
(* scale [x, size, y]                                                            *)
(* arb [w, sg, size, word, v]: an arbitrary integer                             *)
(* range [sg, lo, hi, size, word, res, v]                                        *)
(* real [size, words, tol, v]: a floating point number, as 65536ths        *)
(* text [w, sg, size, words, v]: a string    char [w, sg, words, v]: a character *)
EXTENDS Bits, VT
VARIABLES sid, l, pos     \* pos: bits read so far
tvars == <<bvars, sid, l, pos>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED <<sid, bvars>>
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ pos = 0 /\ BInit(Scenarios[sid].cfg.width)
W == S.cfg.width
Took(n, sg) == /\ pos' = pos + n
               /\ E.used = WordsFor(pos + n, W)
               /\ E.v = Value(S.cfg.words, W, pos, n, sg)
TRead == At("read") /\ Took(MinOf(E.n, E.w), E.sg)
TSized == At("sized") /\ Took(SizedBits(E.w, E.size), E.sg)
TFlag == At("flag") /\ Took(1, FALSE)
TScale == At("scale") /\ E.y = Scale64(E.x, E.size) /\ UNCHANGED pos
TArb == At("arb") /\ E.v = Value(<<E.word>>, 64, 0, IF E.w = 1 THEN 1 ELSE SizedBits(E.w, E.size), E.sg) /\ UNCHANGED pos
RangeOk == IF ~Less(E.lo, E.hi, E.sg) THEN E.res = "fail" ELSE E.res = "val" /\ E.v = InRange(E.lo, E.hi, E.size, E.word)
TRange == At("range") /\ (RangeOk = TRUE) /\ UNCHANGED pos
(* a sized 64-bit integer plus a fraction, both growing with size               *)
RealOk == LET n == SizedBits(64, E.size)
              a == Value(E.words, 64, 0, n, TRUE)
              whole == IF a[4] >= 32768 THEN 0 - Neg64(a)[1] ELSE a[1]
              part == Scale64(Value(E.words, 64, n, 64, FALSE), E.size)[4]
              v == whole * B16 + part
          IN n <= 14 => (v - E.v) \in (0 - E.tol)..E.tol
TReal == At("real") /\ (RealOk = TRUE) /\ UNCHANGED pos
(* characters: one bit tells whether it is taken from seven bits or from all of  *)
(* its type's; null characters are drawn again                                  *)
RECURSIVE CharAt(_, _, _, _, _), Chars(_, _, _, _, _, _)
CharAt(words, p, w, sg, n) ==
  IF p + n > 64 * Len(words) THEN [c |-> Zero64, p |-> p]
  ELSE LET c == Low(Value(words, 64, p, n, sg), w) IN
       IF c = Zero64 THEN CharAt(words, p + n, w, sg, n) ELSE [c |-> c, p |-> p + n]
CharFrom(words, p, w, sg) == CharAt(words, p + 1, w, sg, IF StreamBit(words, 64, p + 1) = 1 THEN 7 ELSE w)
Chars(words, p, w, sg, k, acc) == IF k = 0 THEN acc
                                  ELSE LET r == TLCEval(CharFrom(words, p, w, sg))
                                       IN Chars(words, r.p, w, sg, k - 1, Append(acc, r.c))
TextOk == LET n == Mod64(E.words[1], FromNat(E.size + 1))[1] IN
          Len(E.v) = n /\ E.v = Chars(E.words, 64, E.w, E.sg, n, <<>>)
TText == At("text") /\ (TextOk = TRUE) /\ UNCHANGED pos
TChar == At("char") /\ E.v = CharFrom(E.words, 0, E.w, E.sg).c /\ UNCHANGED pos
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<bvars, sid, pos>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TRead \/ TSized \/ TFlag \/ TScale \/ TArb \/ TRange \/ TReal \/ TText \/ TChar \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
