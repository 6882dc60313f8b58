------------------------------ MODULE LongShrink ------------------------------
(* Very wide and very deep descents (property C03), in a form that needs no     *)
(* tree: a comb. Level k (k = 0 .. depth) is a failing case with w[k+1] shrinks *)
(* that do not fail, then - unless it is the last level - the failing case of   *)
(* level k+1, then one more failing leaf that a greedy descent never reaches.   *)
EXTENDS Naturals, Sequences
CONSTANTS Combs
VARIABLES w, level, idx, phase, path
lvars == <<w, level, idx, phase, path>>

Depth == Len(w) - 1
StartWith(c) == w = c /\ level = 0 /\ idx = 0 /\ phase = "original" /\ path = <<>>

Original == phase = "original" /\ phase' = "descend" /\ UNCHANGED <<w, level, idx, path>>
(* n shrinks in a row are tried and rejected *)
Rejected(n) ==
  /\ phase = "descend" /\ n >= 1 /\ idx + n <= w[level + 1]
  /\ idx' = idx + n /\ UNCHANGED <<w, level, phase, path>>
(* n times in a row the failing shrink of the current level is tried: the first *)
(* one at the current position, the others after no rejected ones               *)
Accepted(n) ==
  /\ phase = "descend" /\ n >= 1 /\ level + n <= Depth
  /\ idx = w[level + 1] /\ \A k \in (level + 2)..(level + n) : w[k] = 0
  /\ path' = path \o [k \in 1..n |-> w[level + k]]
  /\ level' = level + n /\ idx' = 0 /\ UNCHANGED <<w, phase>>
AtEnd == phase = "descend" /\ level = Depth /\ idx = w[Depth + 1]
Minimal == AtEnd /\ phase' = "final" /\ UNCHANGED <<w, level, idx, path>>
(* what was found *)
Result == SubSeq(w, 1, Depth)

Init == \E c \in Combs : StartWith(c)
Next == \/ Original
        \/ \E n \in 1..3 : Rejected(n) \/ Accepted(n)
        \/ Minimal
        \/ (phase = "final" /\ UNCHANGED lvars)
Spec == Init /\ [][Next]_lvars /\ WF_lvars(Next)
===============================================================================
