------------------------------- MODULE ChoiceMC -------------------------------
EXTENDS Choice
CONSTANTS MaxLen, MaxW, Ns, Sizes
Lists == UNION {[1..n -> 0..MaxW] : n \in 0..MaxLen}
Start == Lists \cup {EqualWeights(n) : n \in Ns} \cup {SizedWeights(n, s) : n \in Ns, s \in Sizes}
Init == \E ws \in Start : CInit(ws)
Next == Build \/ Refuse \/ (\E d \in 0..(Total(w) - 1) : Draw(d)) \/ Bisect \/ Choose1
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)
Range == st = "chosen" => lo \in 1..Len(w) /\ w[lo] > 0
Right == st = "chosen" => Owns(w, lo, draw)
Bracket == st = "search" => \A i \in 1..Len(w) : Owns(w, i, draw) => lo <= i /\ i <= hi
Refused == st = "refused" <=> (st \in {"chosen", "refused"} /\ Total(w) = 0)
(* every alternative owns exactly its weight many draws                         *)
Shares == (st = "build" /\ table = <<>>) =>
          \A i \in 1..Len(w) : Cardinality({d \in 0..(Total(w) - 1) : Owns(w, i, d)}) = w[i]
Order == (st = "build" /\ table = <<>>) =>
         \A d, e \in 0..(Total(w) - 1), i, j \in 1..Len(w) : (d < e /\ Owns(w, i, d) /\ Owns(w, j, e)) => i <= j
Ends == <>(st \in {"chosen", "refused"})
Limbs(ws) == [i \in 1..Len(ws) |-> FromNat(ws[i])]
SameWide == st = "chosen" => Owner64(Limbs(w), FromNat(draw)) = lo - 1
(* segments                                                                     *)
ASSUME \A n \in Ns : /\ Segment(n, 0) = 1
                     /\ \A s \in Sizes : /\ Segment(n, s) \in 1..n
                                         /\ (s >= Nominal => Segment(n, s) = n)
                                         /\ Segment64(n, s) = FromNat(Segment(n, s))
                                         /\ \A t \in Sizes : t <= s => Segment(n, t) <= Segment(n, s)
(* scaling of wide numbers                                                      *)
Samples == {Zero64, One64, FromNat(99), FromNat(100), FromNat(65535), FromNat(65536), <<0, 0, 1, 0>>, <<65535, 65535, 0, 0>>,
            <<1, 2, 3, 4>>, <<0, 0, 0, 32768>>, <<65535, 65535, 65535, 32767>>, Max64, <<65534, 65535, 65535, 65535>>}
ASSUME \A x \in Samples : /\ Scale64(x, 0) = Zero64
                          /\ \A s \in Sizes : /\ (s >= Nominal => Scale64(x, s) = x)
                                              /\ Le(Scale64(x, s), x)
                                              /\ \A y \in Samples : Le(y, x) => Le(Scale64(y, s), Scale64(x, s))
                                              /\ \A t \in Sizes : t <= s => Le(Scale64(x, t), Scale64(x, s))
ASSUME \A x \in 0..300, m \in {1, 2, 3, 7, 64, 100, 255} : Mod64(FromNat(x), FromNat(m)) = FromNat(x % m)
ASSUME \A x, m \in Samples : m # Zero64 => LET r == Mod64(x, m) IN Lt(r, m) /\ (Lt(x, m) => r = x) /\ Mod64(Sub(x, r), m) = Zero64
===============================================================================
