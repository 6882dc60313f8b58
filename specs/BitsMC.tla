-------------------------------- MODULE BitsMC --------------------------------
EXTENDS Bits
CONSTANTS Widths, MaxRead, MaxBits
VARIABLES out   \* bits of the reads that are over
vars == <<bvars, out>>
Init == out = <<>> /\ \E W \in Widths : BInit(W)
Next == \/ \E n \in 0..MaxRead : Len(out) + n <= MaxBits /\ Read(n) /\ UNCHANGED out
        \/ Refill /\ UNCHANGED out
        \/ Take /\ UNCHANGED out
        \/ Finish /\ out' = out \o got
Spec == Init /\ [][Next]_vars /\ WF_vars(Refill /\ UNCHANGED out) /\ WF_vars(Take /\ UNCHANGED out) /\ WF_vars(Finish /\ out' = out \o got)
(* every bit once and in order                                                  *)
Stream == out = [i \in 1..Len(out) |-> i]
All == want >= 0 => out \o got = [i \in 1..(Len(out) + Len(got)) |-> i]
Thrift == want = -1 => drawn = WordsFor(Len(out), width)
Buffer == Len(buf) < width \/ (Len(buf) = width /\ want > 0)
Ends == \A n \in 0..MaxRead : (want = n) ~> (want = -1)
-------------------------------------------------------------------------------
(* sizes and widths                                                             *)
ASSUME \A w \in {1, 8, 16, 32, 64} : /\ SizedBits(w, 0) = 0
                                     /\ \A s \in 0..300 : /\ SizedBits(w, s) \in 0..w
                                                          /\ SizedBits(w, s) <= SizedBits(w, s + 1)
                                                          /\ (s >= 100 => SizedBits(w, s) = w)
(* two's complement on a few bits                                               *)
AllBits(n) == [1..n -> {0, 1}]
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * Num(Tail(b))
ASSUME \A n \in 0..7 : \A b \in AllBits(n) :
         /\ FromBits(Extend(b, FALSE)) = FromNat(Num(b))
         /\ FromBits(Extend(b, TRUE)) = IF n > 0 /\ b[n] = 1 THEN Neg64(FromNat(2 ^ n - Num(b))) ELSE FromNat(Num(b))
(* ranges over a few values around the ends of the number lines                 *)
Ends64 == {Zero64, One64, FromNat(2), FromNat(100), Max64, <<65534, 65535, 65535, 65535>>, <<0, 0, 0, 32768>>, <<65535, 65535, 65535, 32767>>,
           <<1, 0, 0, 32768>>, <<0, 0, 1, 0>>}
Words == {Zero64, One64, FromNat(65535), Max64, <<1, 2, 3, 40000>>}
ASSUME \A sg \in BOOLEAN : \A lo, hi \in Ends64 : Less(lo, hi, sg) =>
         /\ \A s \in {0, 1, 33, 50, 99, 100, 1000}, x \in Words :
              LET v == InRange(lo, hi, s, x) IN
              /\ ~Less(v, lo, sg) /\ Less(v, hi, sg)
              /\ (s = 0 => v = lo)
         /\ RangeSize(lo, hi, 100) = Sub(hi, lo)
===============================================================================
