------------------------------- MODULE ReportMC -------------------------------
EXTENDS Report
CONSTANTS MaxRuns, MaxCases
VARIABLES hist, runs     \* what happened in this run
Tagss == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a">>}
MkCase(o, t) == [out |-> o, desc |-> o, tags |-> t, ex |-> <<<<"x", "1">>>>]
Cases == {MkCase("S", t) : t \in Tagss} \cup {MkCase(o, t) : o \in {"F", "D"}, t \in {<<>>, <<"a">>}}
Init == RInit /\ hist = <<>> /\ runs = 0
Next == \/ (Start /\ hist' = <<>> /\ runs' = runs + 1 /\ runs < MaxRuns)
        \/ \E c \in Cases : (Case(c) \/ Try(c)) /\ Len(hist) < MaxCases /\ hist' = Append(hist, c) /\ UNCHANGED runs
        \/ ((EndOk \/ EndGaveUp \/ EndFailed) /\ UNCHANGED <<hist, runs>>)
Spec == Init /\ [][Next]_<<rvars, hist, runs>>
(* exactly the successful tagged cases are counted, each once                   *)
Exact == phase # "idle" =>
  /\ \A t \in Tagss : Count(dist, t) = Cardinality({i \in 1..Len(hist) : hist[i].out = "S" /\ hist[i].tags = t /\ t # <<>>
                                                      /\ \A j \in 1..(i - 1) : hist[j].out # "F"})
  /\ nS = Cardinality({i \in 1..Len(hist) : hist[i].out = "S" /\ \A j \in 1..(i - 1) : hist[j].out # "F"})
NoEmpty == <<>> \notin DOMAIN dist /\ \A t \in DOMAIN dist : dist[t] > 0
(* the percentages of all lines never make more than 100 % (up to rounding)     *)
RECURSIVE Sum(_, _)
Sum(d, T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN d[t] + Sum(d, T \ {t})
AtMostAll == Sum(dist, DOMAIN dist) <= nS
(* what is reported is a case that failed, of the last run                      *)
Reported == phase = "over" /\ best.out = "F" =>
              \E i \in 1..Len(hist) : hist[i] = best /\ \A j \in (i + 1)..Len(hist) : hist[j].out # "F"
ShrinkCount == nShr > 0 => nShr = Cardinality({i \in 1..Len(hist) : hist[i].out = "F"}) - 1
(* order of the tags matters, lines are determined up to equal frequency        *)
SomeLines(d) == LET T == DOMAIN d IN
  CHOOSE s \in [1..Cardinality(T) -> T] : (\A i, j \in DOMAIN s : i < j => d[s[i]] >= d[s[j]]) /\ {s[i] : i \in DOMAIN s} = T
LinesExist == phase = "over" /\ nS > 0 /\ Cardinality(DOMAIN dist) \in 1..3 =>
  LET s == SomeLines(dist)
      ls == [i \in DOMAIN s |-> CHOOSE x \in LinesFor(dist, s[i], nS) : TRUE]
  IN LinesOk(dist, nS, ls) /\ (Len(ls) > 1 => ~LinesOk(dist, nS, Tail(ls))) /\ ~LinesOk(dist, nS, [ls EXCEPT ![1] = "x"])
===============================================================================
