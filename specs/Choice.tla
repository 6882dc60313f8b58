-------------------------------- MODULE Choice --------------------------------
(* Choosing one of several alternatives (property C20). Each alternative has a   *)
(* weight; the draws 0 .. sum - 1 are equally likely. A table of running sums is *)
(* built and the draw is looked up in it by bisection. Equal choice gives every  *)
(* alternative weight 1; choice by size gives weight 1 to a first segment, whose *)
(* length grows with the size, and 0 to the rest.                                *)
EXTENDS Scale, FiniteSets
VARIABLES w,      \* weights
          table,  \* running sums so far
          draw,   \* -1 before drawing
          lo, hi, \* the answer is between these
          st      \* "build" | "search" | "chosen" | "refused"
cvars == <<w, table, draw, lo, hi, st>>
RECURSIVE Sum(_, _)
Sum(ws, i) == IF i = 0 THEN 0 ELSE ws[i] + Sum(ws, i - 1)
Total(ws) == Sum(ws, Len(ws))
(* what a draw means: the alternative whose stretch of the draws contains it    *)
Owns(ws, i, d) == Sum(ws, i - 1) <= d /\ d < Sum(ws, i)
CInit(ws) == w = ws /\ table = <<>> /\ draw = -1 /\ lo = 0 /\ hi = 0 /\ st = "build"
Top == IF table = <<>> THEN 0 ELSE table[Len(table)]
Build == /\ st = "build" /\ Len(table) < Len(w)
         /\ table' = Append(table, Top + w[Len(table) + 1]) /\ UNCHANGED <<w, draw, lo, hi, st>>
Refuse == st = "build" /\ Len(table) = Len(w) /\ Top = 0 /\ st' = "refused" /\ UNCHANGED <<w, table, draw, lo, hi>>
Draw(d) == /\ st = "build" /\ Len(table) = Len(w) /\ Top > 0 /\ d \in 0..(Top - 1)
           /\ draw' = d /\ lo' = 1 /\ hi' = Len(w) + 1 /\ st' = "search" /\ UNCHANGED <<w, table>>
Bisect == /\ st = "search" /\ lo < hi
          /\ LET m == (lo + hi) \div 2 IN
             IF table[m] <= draw THEN lo' = m + 1 /\ hi' = hi ELSE hi' = m /\ lo' = lo
          /\ UNCHANGED <<w, table, draw, st>>
Choose1 == st = "search" /\ lo = hi /\ st' = "chosen" /\ UNCHANGED <<w, table, draw, lo, hi>>
(* segments                                                                     *)
Segment(n, size) == ScaleNat(n - 1, size) + 1
EqualWeights(n) == [i \in 1..n |-> 1]
SizedWeights(n, size) == [i \in 1..n |-> IF i <= Segment(n, size) THEN 1 ELSE 0]
-------------------------------------------------------------------------------
(* the same for 64-bit weights: index (from 0) of the alternative, Len if none   *)
RECURSIVE OwnerFrom(_, _, _, _)
OwnerFrom(ws, i, acc, d) == IF i > Len(ws) THEN Len(ws)
                            ELSE LET s == Add(acc, ws[i]) IN IF Lt(d, s) THEN i - 1 ELSE OwnerFrom(ws, i + 1, s, d)
Owner64(ws, d) == OwnerFrom(ws, 1, Zero64, d)
RECURSIVE Total64(_, _)
Total64(ws, i) == IF i = 0 THEN Zero64 ELSE Add(Total64(ws, i - 1), ws[i])
Segment64(n, size) == Add(Scale64(FromNat(n - 1), size), One64)
(* index chosen by a word that was drawn                                        *)
WeightedPick(ws, word) == Owner64(ws, Mod64(word, Total64(ws, Len(ws))))
EqualPick(n, word) == Mod64(word, FromNat(n))
SizedPick(n, size, word) == Mod64(word, Segment64(n, size))
===============================================================================
