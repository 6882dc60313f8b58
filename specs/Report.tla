-------------------------------- MODULE Report --------------------------------
(* What a test run reports (property C18). A run is a sequence of cases, each   *)
(* with an outcome, a description, tags (a sequence) and an example (named      *)
(* values, both texts); if it fails, shrinks of it are tried, too. From these   *)
(* the result and the message are determined.                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES phase,    \* "idle" | "search" | "shrink" | "over"
          nS,       \* successful cases
          dist,     \* combination of tags -> number of successful cases that have it
          best,     \* the case that counts: the last one, or the last accepted shrink
          nShr      \* accepted shrinks
rvars == <<phase, nS, dist, best, nShr>>
NoCase == [out |-> "none", desc |-> "", tags |-> <<>>, ex |-> <<>>]
RInit == phase = "idle" /\ nS = 0 /\ dist = <<>> /\ best = NoCase /\ nShr = 0

Count(d, t) == IF t \in DOMAIN d THEN d[t] ELSE 0
Inc(d, t) == [x \in DOMAIN d \cup {t} |-> IF x = t THEN Count(d, t) + 1 ELSE d[x]]

(* nothing of an earlier run is left when a run starts                          *)
Start == phase \in {"idle", "over"} /\ phase' = "search" /\ nS' = 0 /\ dist' = <<>> /\ best' = NoCase /\ nShr' = 0
Case(c) == /\ phase = "search" /\ best.out # "F"
           /\ best' = c
           /\ nS' = IF c.out = "S" THEN nS + 1 ELSE nS
           /\ dist' = IF c.out = "S" /\ c.tags # <<>> THEN Inc(dist, c.tags) ELSE dist
           /\ UNCHANGED <<phase, nShr>>
(* k times in a row the same case                                               *)
CaseTimes(c, k) ==
               /\ phase = "search" /\ best.out # "F" /\ c.out # "F" /\ k >= 1
               /\ best' = c
               /\ nS' = IF c.out = "S" THEN nS + k ELSE nS
               /\ dist' = IF c.out = "S" /\ c.tags # <<>>
                          THEN [x \in DOMAIN dist \cup {c.tags} |-> Count(dist, x) + (IF x = c.tags THEN k ELSE 0)]
                          ELSE dist
               /\ UNCHANGED <<phase, nShr>>
(* a shrink of the failing case: accepted if it fails                           *)
Try(c) == /\ phase \in {"search", "shrink"} /\ best.out = "F"
          /\ phase' = "shrink"
          /\ best' = IF c.out = "F" THEN c ELSE best
          /\ nShr' = IF c.out = "F" THEN nShr + 1 ELSE nShr
          /\ UNCHANGED <<nS, dist>>
EndOk == phase = "search" /\ best.out # "F" /\ phase' = "over" /\ UNCHANGED <<nS, dist, best, nShr>>
EndGaveUp == phase = "search" /\ best.out = "D" /\ phase' = "over" /\ UNCHANGED <<nS, dist, best, nShr>>
EndFailed == phase \in {"search", "shrink"} /\ best.out = "F" /\ phase' = "over" /\ UNCHANGED <<nS, dist, best, nShr>>
-------------------------------------------------------------------------------
(* floor(a * b / c) and remainder, without leaving 32 bits (b < c)              *)
RECURSIVE MulDiv(_, _, _)
MulDiv(a, b, c) ==
  IF a = 0 THEN <<0, 0>>
  ELSE LET h == MulDiv(a \div 2, b, c)
           r2 == IF h[2] >= c - h[2] THEN <<2 * h[1] + 1, h[2] - (c - h[2])>> ELSE <<2 * h[1], 2 * h[2]>>
       IN IF a % 2 = 0 THEN r2
          ELSE IF r2[2] >= c - b THEN <<r2[1] + 1, r2[2] - (c - b)>> ELSE <<r2[1], r2[2] + b>>
(* k of n in hundredths of a percent, to the nearest; a tie may go either way   *)
Hundredths(k, n) ==
  IF k = n THEN {10000}
  ELSE LET d == MulDiv(10000, k, n) IN
       IF d[2] > n - d[2] THEN {d[1] + 1} ELSE IF d[2] < n - d[2] THEN {d[1]} ELSE {d[1], d[1] + 1}
Two(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
Percent(h) == LET w == h \div 100 IN (IF w < 10 THEN " " ELSE "") \o ToString(w) \o "." \o Two(h % 100) \o "% - "
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
(* the lines of a distribution d of a run with n successful cases: one for each *)
(* combination, most frequent first; equally frequent ones in any order         *)
LinesFor(d, t, n) == {Percent(h) \o Join(t, ", ") : h \in Hundredths(d[t], n)}
Freqs(d) == {d[t] : t \in DOMAIN d}
Above(d, f) == Cardinality({t \in DOMAIN d : d[t] > f})
LinesOk(d, n, lines) ==
  /\ Len(lines) = Cardinality(DOMAIN d)
  /\ \A t \in DOMAIN d :
       LET from == Above(d, d[t]) + 1
           same == {u \in DOMAIN d : d[u] = d[t]}
           to == Above(d, d[t]) + Cardinality(same)
           mine == LinesFor(d, t, n)
       IN Cardinality({i \in from..to : lines[i] \in mine}) = Cardinality({u \in same : Join(u, ", ") = Join(t, ", ")})
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Cat(Tail(ss))
PassText(n, d, lines) == "OK, passed " \o ToString(n) \o " tests" \o
                         (IF DOMAIN d = {} THEN "" ELSE "\n" \o Cat([i \in 1..Len(lines) |-> lines[i] \o "\n"]))
FailText(n, k, ex, desc) ==
  "Falsifiable after " \o ToString(n + 1) \o " tests" \o
  (IF k = 0 THEN "" ELSE IF k = 1 THEN " and 1 shrink" ELSE " and " \o ToString(k) \o " shrinks") \o "\n\n" \o
  Cat([i \in 1..Len(ex) |-> ex[i][1] \o ":\n" \o ex[i][2] \o "\n\n"]) \o desc
GaveUpText(n, desc) == "Gave up after " \o ToString(n) \o " tests\n\n" \o desc
ErrorText(desc) == "Failure: " \o desc \o "\n\n"
===============================================================================
