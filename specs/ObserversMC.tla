----------------------------- MODULE ObserversMC -----------------------------
EXTENDS Observers
CONSTANTS K, MaxEvals, MaxRuns
VARIABLES evals, runs, ann,     \* ann: announcements made in this run
          seen                  \* what ran (or was announced) after the hook
V == <<ovars, evals, runs, ann, seen>>
D == {"p", "q"}
Runs == [d : D, out : {"S", "F", "D"}]
Init == OInit(K) /\ evals = 0 /\ runs = 0 /\ ann = <<>> /\ seen = <<>>
Note == telling' # telling /\ telling'.next = 1 /\ ann' = Append(ann, telling'.a)
Step ==
  \/ (Hook /\ UNCHANGED <<evals, runs, ann>>)
  \/ (Start /\ runs < MaxRuns /\ runs' = runs + 1 /\ evals' = 0 /\ ann' = <<>>)
  \/ (\E c \in Runs : Ran(c, FALSE)) /\ evals < MaxEvals /\ evals' = evals + 1 /\ UNCHANGED <<runs, ann>>
  \/ (\E c \in {last, best} : c # NoRun /\ Ran(c, TRUE)) /\ UNCHANGED <<evals, runs, ann>>
  \/ (AnnounceCase(TRUE, TRUE) \/ (AnnounceTry(TRUE, TRUE) /\ Len(ann) <= MaxEvals)
      \/ \E r \in {"ok", "failed", "gaveup"} : AnnounceEnd(r, "id", runs, TRUE, TRUE)) /\ Note /\ UNCHANGED <<evals, runs>>
  \/ (Tell /\ UNCHANGED <<evals, runs, ann>>)
Next == Step /\ seen' = (IF stop' = "no" \/ stop = "no" THEN <<>> ELSE IF last' # last \/ stop' # stop THEN Append(seen, last')
                         ELSE IF telling' # telling /\ telling'.next = 1 THEN Append(seen, telling'.a) ELSE seen)
Spec == Init /\ [][Next]_V /\ WF_ovars(Tell)
(* observers are told what is announced, in that order, earlier ones first      *)
Prefix == \A i \in 1..K : inbox[i] = SubSeq(ann, 1, Len(inbox[i]))
InTurn == \A i \in 1..K : Len(inbox[i]) = (IF telling.next > 0 /\ i >= telling.next THEN Len(ann) - 1 ELSE Len(ann))
(* cases, then shrinks of a failing case, then the end, once                    *)
Shape == LET n == Len(ann) IN
  /\ \A i \in 1..n : ann[i].t = "end" => i = n
  /\ \A i \in 1..n : ann[i].t = "try" => \E j \in 1..(i - 1) : ann[j].t = "case" /\ ann[j].out = "F"
  /\ \A i, j \in 1..n : (i < j /\ ann[j].t = "case") => ann[i].t = "case" /\ ann[i].out # "F"
  /\ (phase = "ended") = (n > 0 /\ ann[n].t = "end")
Counted == phase = "ended" => LET e == ann[Len(ann)] IN
  /\ e.n = Cardinality({i \in 1..Len(ann) : ann[i].t = "case" /\ ann[i].out = "S"})
  /\ Len(e.path) = Cardinality({i \in 1..Len(ann) : ann[i].t = "try" /\ ann[i].acc})
  /\ (e.r = "failed") = (\E i \in 1..Len(ann) : ann[i].t = "case" /\ ann[i].out = "F")
Summary == ("id" \in SummaryIds) => \E f \in failed : f[2] <= runs
(* once the hook was called the minimal case runs, nothing else is run, then the end is told *)
Debuggable == /\ (stop # "no" => best # NoRun /\ best.out = "F")
              /\ \A i \in 1..Len(seen) : IF i = 1 \/ "t" \notin DOMAIN seen[i] THEN seen[i] = best ELSE seen[i].t = "end"
              /\ (phase = "ended" => (stop = "run") = (ann[Len(ann)].r = "failed"))
Delivered == (telling.next > 0) ~> (telling.next = 0)
===============================================================================
