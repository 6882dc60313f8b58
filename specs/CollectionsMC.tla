---------------------------- MODULE CollectionsMC ----------------------------
(* Generate element by element from any values, then shrink in every possible   *)
(* way.                                                                         *)
EXTENDS Collections, TLC
CONSTANTS Dom, Count, M, MaxTries
VARIABLES kind, fixed, s, tries, phase, parent
mvars == <<kind, fixed, s, tries, phase, parent>>
Pairs(k) == k = "map"
Init == /\ kind \in {"seq", "set", "map", "unique"} /\ fixed \in BOOLEAN
        /\ s = <<>> /\ tries = 0 /\ phase = "gen" /\ parent = <<>>
Gen == /\ phase = "gen" /\ Len(s) < Count /\ tries < MaxTries
       /\ \E x \in 0..Dom, y \in (IF Pairs(kind) THEN 0..1 ELSE {0}) :
            IF Acceptable(kind, M, s, <<x, y>>) THEN s' = Append(s, <<x, y>>) /\ tries' = 0
            ELSE tries' = tries + 1 /\ UNCHANGED s
       /\ UNCHANGED <<kind, fixed, phase, parent>>
GiveUp == phase = "gen" /\ tries = MaxTries /\ phase' = "failed" /\ UNCHANGED <<kind, fixed, s, tries, parent>>
Done == phase = "gen" /\ tries < MaxTries /\ (fixed => Len(s) = Count) /\ phase' = "have" /\ tries' = 0
        /\ UNCHANGED <<kind, fixed, s, parent>>
List == ShrinksOf(kind, M, Pairs(kind), fixed, s)
Shrink == /\ phase = "have" /\ \E i \in 1..Len(List) : s' = List[i]
          /\ parent' = s /\ UNCHANGED <<kind, fixed, tries, phase>>
Next == Gen \/ GiveUp \/ Done \/ Shrink
Spec == Init /\ [][Next]_mvars
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q)[1] + Head(q)[2] + Sum(Tail(q))
Distinct == /\ kind \in {"set", "map"} => \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
            /\ kind = "unique" => \A i, j \in 1..Len(s) : i # j => KeyOf(s[i], M) # KeyOf(s[j], M)
IsChunkRemoved(a, b) == \E i \in 1..Len(a), n \in 1..Len(a) : i + n - 1 <= Len(a) /\ b = RemoveAt(a, i, n)
IsOneChanged(a, b) == Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] # b[i] /\ \A j \in 1..Len(a) : j # i => a[j] = b[j]
(* every candidate differs from its parent by exactly one chunk or one element, *)
(* and there is no endless shrinking                                            *)
OneChange == [][Shrink => \/ ~fixed /\ IsChunkRemoved(s, s')
                          \/ IsOneChanged(s, s')]_mvars
Smaller == [][Shrink => Len(s') < Len(s) \/ (Len(s') = Len(s) /\ Sum(s') < Sum(s))]_mvars
(* every chunk is tried, larger ones first *)
AllChunks == phase = "have" /\ ~fixed =>
  LET r == RemoveChunks(s) IN
    /\ Len(r) = (Len(s) * (Len(s) + 1)) \div 2
    /\ \A i \in 2..Len(r) : Len(r[i - 1]) <= Len(r[i])
FixedCount == fixed /\ phase = "have" => Len(s) = Count
===============================================================================
