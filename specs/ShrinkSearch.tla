----------------------------- MODULE ShrinkSearch -----------------------------
(* The shrink phase of a test run (property C03): a greedy descent through the *)
(* tree of shrinks of the failing case.                                        *)
(* A node is [o |-> "F" | "S" | "D", c |-> <<children>>]; a node is named by   *)
(* its path, the sequence of 0-based child positions from the root.            *)
EXTENDS Naturals, Integers, Sequences

CONSTANTS Trees

VARIABLES tree, mode, path, idx, phase, pend
kvars == <<tree, mode, path, idx, phase, pend>>

RECURSIVE NodeAt(_, _)
NodeAt(t, p) == IF p = <<>> THEN t ELSE NodeAt(t.c[p[1] + 1], Tail(p))
RECURSIVE PathExists(_, _)
PathExists(t, p) == p = <<>> \/ (p[1] < Len(t.c) /\ PathExists(t.c[p[1] + 1], Tail(p)))

Cur == NodeAt(tree, path)

(* mode "full": the whole test (original case runs first, minimal case runs    *)
(* once more); "shrink": only the shrink phase; "none": shrinking disabled     *)
StartWith(t, m) ==
  /\ tree = t /\ mode = m /\ path = <<>> /\ idx = 0 /\ pend = FALSE
  /\ phase = IF m = "shrink" THEN "descend" ELSE "original"
Init == \E t \in Trees, m \in {"full", "shrink", "none"} : StartWith(t, m)

RunOriginal ==
  /\ phase = "original"
  /\ phase' = IF mode = "none" THEN "final" ELSE "descend"
  /\ UNCHANGED <<tree, mode, path, idx, pend>>

(* the idx-th shrink of the best case is run ... *)
RunShrink ==
  /\ phase = "descend" /\ ~pend /\ idx < Len(Cur.c)
  /\ pend' = TRUE
  /\ UNCHANGED <<tree, mode, path, idx, phase>>
(* ... and judged *)
Accept ==
  /\ phase = "descend" /\ pend /\ Cur.c[idx + 1].o = "F"
  /\ path' = Append(path, idx) /\ idx' = 0 /\ pend' = FALSE
  /\ UNCHANGED <<tree, mode, phase>>
Reject ==
  /\ phase = "descend" /\ pend /\ Cur.c[idx + 1].o # "F"
  /\ idx' = idx + 1 /\ pend' = FALSE
  /\ UNCHANGED <<tree, mode, path, phase>>
Exhausted ==
  /\ phase = "descend" /\ ~pend /\ idx >= Len(Cur.c)
  /\ phase' = IF mode = "shrink" THEN "done" ELSE "final"
  /\ UNCHANGED <<tree, mode, path, idx, pend>>
RunMinimal ==
  /\ phase = "final"
  /\ phase' = "done"
  /\ UNCHANGED <<tree, mode, path, idx, pend>>

Next == RunOriginal \/ RunShrink \/ Accept \/ Reject \/ Exhausted \/ RunMinimal
        \/ (phase = "done" /\ UNCHANGED kvars)
Spec == Init /\ [][Next]_kvars /\ WF_kvars(Next)

-------------------------------------------------------------------------------
RECURSIVE Greedy(_)
FirstFail(c) == IF \E i \in 1..Len(c) : c[i].o = "F"
                THEN CHOOSE i \in 1..Len(c) : c[i].o = "F" /\ \A j \in 1..(i - 1) : c[j].o # "F"
                ELSE 0
Greedy(t) == LET f == FirstFail(t.c)
             IN IF f = 0 THEN <<>> ELSE <<f - 1>> \o Greedy(t.c[f])

PathValid      == PathExists(tree, path)
BestFails      == Cur.o = "F"
NothingSkipped == phase = "descend" => \A k \in 1..idx : Cur.c[k].o # "F"
LocalMinimum   == (phase \in {"final", "done"} /\ mode # "none") =>
                    \A k \in 1..Len(Cur.c) : Cur.c[k].o # "F"
GreedyResult   == phase = "done" => path = (IF mode = "none" THEN <<>> ELSE Greedy(tree))
Terminates     == <>(phase = "done")
===============================================================================
