------------------------------ MODULE StatefulMC ------------------------------
(* All generations of short sequences, all outcomes of every try, every chain   *)
(* of shrinks up to a depth, and running what comes out.                        *)
EXTENDS Stateful
CONSTANTS MaxLen, Kinds, Values, Depth, PreRules, PfRules, AppRules, RunRules
VARIABLES phase,   \* "gen", "seq", "repair", "failed"
          g,       \* progress of the first generation
          cur,     \* the current sequence
          want,    \* its intended length
          todo,    \* repair in progress: [es, i, s]
          rn, depth, prev, pre0
vars == <<memo, rules, phase, g, cur, want, todo, rn, depth, prev, pre0>>
Outs == {<<"c", k, v>> : k \in Kinds, v \in Values} \cup {<<"gf">>, <<"e">>}
MCInit == /\ rules \in [pre : PreRules, pf : PfRules, app : AppRules, run : RunRules]
          /\ memo = <<>> /\ phase = "gen" /\ g = GenStart /\ cur = <<>> /\ want \in 1..MaxLen
          /\ todo = <<>> /\ rn = 1 /\ depth = 0 /\ prev = <<>> /\ pre0 = <<>>
Try == /\ phase = "gen" /\ g.res = "more" /\ Len(g.es) < want
       /\ \E out \in Outs : g' = GenTry(g, rn, out) /\ memo' = Append(memo, [r |-> rn, s |-> g.s, out |-> out])
       /\ rn' = rn + 1 /\ UNCHANGED <<rules, phase, cur, want, todo, depth, prev, pre0>>
Generated == /\ phase = "gen" /\ (g.res # "more" \/ Len(g.es) = want)
             /\ phase' = (IF g.res = "more" THEN "seq" ELSE "failed")
             /\ cur' = (IF g.res = "more" THEN g.es ELSE Failed(g.res))
             /\ UNCHANGED <<rules, memo, g, want, todo, rn, depth, prev, pre0>>
(* a shrink is chosen and repaired step by step, tries giving anything *)
Start(es) == /\ phase' = "repair" /\ todo' = es /\ prev' = cur /\ pre0' = es /\ depth' = depth + 1
             /\ UNCHANGED <<rules, memo, g, cur, want, rn>>
Remove == /\ phase = "seq" /\ depth < Depth
          /\ \E a \in 1..Len(cur) : \E n \in 1..(Len(cur) - a + 1) : Start(Cut(cur, a, n))
One == /\ phase = "seq" /\ depth < Depth
       /\ \E i \in 1..Len(cur) : LET ks == Valid(Shrunk(cur[i].c), At0(Cmds(cur), i), 1) IN
            \E j \in 1..Len(ks) : Start([cur EXCEPT ![i].c = ks[j]])
(* the next try the repair needs, if any *)
RECURSIVE Need(_, _, _)
Need(es, i, s) ==
  IF i > Len(es) THEN <<>>
  ELSE LET c == es[i].c P == PreRes(es[i].c, s) IN
       IF Breaks(P) THEN <<>>
       ELSE IF P = "yes" THEN (IF AppOk(c, s) THEN Need(es, i + 1, Apply(c, s)) ELSE <<>>)
       ELSE LET out == Outcome(es[i].r, s)
                d == SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))
                n == IF out[1] = "c" THEN <<out[2], out[3]>> ELSE <<>>
                Q == IF out[1] = "c" THEN PreRes(n, s) ELSE "no" IN
            CASE out[1] = "missing" -> <<es[i].r, s>>
              [] Breaks(out[1]) \/ Breaks(Q) -> <<>>
              [] Q = "yes" -> (IF AppOk(n, s) THEN Need([es EXCEPT ![i].c = n], i + 1, Apply(n, s)) ELSE <<>>)
              [] OTHER -> Need(d, i, s)
Regenerate == /\ phase = "repair"
              /\ LET n == Need(todo, 1, Init) IN
                 /\ n # <<>>
                 /\ \E out \in Outs : memo' = Append(memo, [r |-> n[1], s |-> n[2], out |-> out])
              /\ UNCHANGED <<rules, phase, g, cur, want, todo, rn, depth, prev, pre0>>
Repaired == /\ phase = "repair" /\ Need(todo, 1, Init) = <<>>
            /\ cur' = Repair(todo)
            /\ phase' = (IF IsSeq(cur') THEN "seq" ELSE "failed")
            /\ todo' = <<>>
            /\ UNCHANGED <<rules, memo, g, want, rn, depth, prev, pre0>>
MCNext == Try \/ Generated \/ Remove \/ One \/ Regenerate \/ Repaired
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
-------------------------------------------------------------------------------
AlwaysValid == phase = "seq" => ValidSequence(Cmds(cur))
GeneratedLength == phase = "seq" /\ depth = 0 => Len(cur) = want
TriesBounded == g.t < TryLimit
(* a valid sequence is never discarded when run, and every command is run in    *)
(* order, once, unless one fails                                                *)
Runs == phase = "seq" =>
  LET R == RunAll(Cmds(cur)) IN
  /\ R.res # "discard"
  /\ Len(R.runs) <= Len(cur)
  /\ R.res = "ok" => Len(R.runs) = Len(cur)
  /\ \A i \in 1..Len(R.runs) : R.runs[i] = <<cur[i].c, At0(Cmds(cur), i), i - 1>>
  /\ ApplyAll(Cmds(cur)) = [res |-> "ok", s |-> StateAfter(Cmds(cur), Len(cur), Init)]
(* entries keep their order: the random states they came from are a subsequence *)
RECURSIVE Subseq(_, _)
Subseq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                ELSE IF Head(a) = Head(b) THEN Subseq(Tail(a), Tail(b)) ELSE Subseq(a, Tail(b))
Rs(es) == [i \in 1..Len(es) |-> es[i].r]
KeepsOrder == phase = "seq" /\ depth > 0 => Subseq(Rs(cur), Rs(pre0)) /\ Subseq(Rs(pre0), Rs(prev))
(* a command is replaced only when it was invalid where it came to be           *)
OnlyInvalidReplaced == phase = "seq" /\ depth > 0 =>
  \A i \in 1..Len(cur) : \E j \in 1..Len(pre0) :
    pre0[j].r = cur[i].r /\ (pre0[j].c # cur[i].c => ~Pre(pre0[j].c, At0(Cmds(cur), i)))
(* every shrink is smaller in a well-founded order: length, then the commands   *)
(* from the first                                                               *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE IF a[1].c[2] # b[1].c[2] THEN a[1].c[2] < b[1].c[2] ELSE LexLess(Tail(a), Tail(b))
Smaller == phase = "seq" /\ depth > 0 => Len(cur) < Len(prev) \/ LexLess(cur, prev)
(* the shrink taken is one of the listed shrinks, unless the list ends before   *)
Listed == (phase = "seq" /\ depth > 0 /\ rules.app = 0 /\ rules.pf = 0 /\ (\A i \in 1..Len(memo) : memo[i].out[1] # "e")) =>
  LET K == Shrinks(prev) IN \E k \in 1..Len(K) : K[k] = cur
(* what fails to be made fails for a reason: not an unmet precondition           *)
Reason == phase = "failed" =>
  \/ cur = Failed("gf") /\ (rules.app = 1 \/ depth = 0)
  \/ cur = Failed("f") /\ (rules.app = 2 \/ rules.pf = 2)
  \/ cur = Failed("e") /\ (rules.app = 3 \/ rules.pf = 3 \/ \E i \in 1..Len(memo) : memo[i].out[1] = "e")
Finishes == <>(phase \in {"seq", "failed"})
===============================================================================
