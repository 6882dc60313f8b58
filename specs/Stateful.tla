------------------------------- MODULE Stateful -------------------------------
(* Stateful testing (property C11).                                            *)
(*                                                                             *)
(* The model state is a number, a command is <<kind, value>>. A command is     *)
(* generated by a try: the command generator for a model state s, run with a   *)
(* random state named r, gives an outcome: <<"c", k, v>> a command, <<"gf">>   *)
(* generation failure, <<"d">> discard, <<"f">> a failure, <<"e">> another      *)
(* error. memo holds the outcomes seen: what a try gives is a function of r, s. *)
(* Only discards mean an unmet precondition: failures and errors surface.       *)
(* A sequence is a list of entries [r, c]: the random state the entry was      *)
(* generated with (1, 2, ..) and its command. Failed(e) stands for a sequence   *)
(* that can not be computed.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT TryLimit
VARIABLES memo, rules
(* rules [pre, pf, app, run]: which of the preconditions below commands have,   *)
(* how checking them can break (0 never, 2 failure, 3 error), how advancing the  *)
(* model can break (1 discard, 2 failure, 3 error), whether runs can fail        *)
Col == INSTANCE Collections

Init == 0
Apply(c, s) == ((3 * s) + (5 * c[1]) + c[2] + 1) % 17
Pre(c, s) == CASE rules.pre = 0 -> TRUE
               [] rules.pre = 1 -> ((s + c[2]) % 3) # 0
               [] rules.pre = 2 -> IF c[1] = 0 THEN (s % 2) = 0 ELSE c[2] <= s
               [] rules.pre = 3 -> s < 9 /\ (c[1] = 2 => s # 0)
               [] rules.pre = 4 -> ((s + c[1] + c[2]) % 4) = 1 \/ s = 0
               [] OTHER -> FALSE
AppOk(c, s) == rules.app = 0 \/ ((s + c[2]) % 5) # 4
Broken(how) == CASE how = 1 -> "gf" [] how = 2 -> "f" [] how = 3 -> "e"
AppBad == Broken(rules.app)
(* checking the precondition: "yes", "no", or it breaks                         *)
PreRes(c, s) == IF rules.pf # 0 /\ ((s + (2 * c[1]) + c[2]) % 7) = 6 THEN Broken(rules.pf)
                ELSE IF Pre(c, s) THEN "yes" ELSE "no"
Breaks(x) == x \in {"f", "e"}
RunOk(c, s) == rules.run = 0 \/ ((s + c[1] + c[2]) % 6) # 5
Shrunk(c) == [j \in 1..Len(Col!Children(c[2])) |-> <<c[1], Col!Children(c[2])[j]>>]
Cmds(es) == [i \in 1..Len(es) |-> es[i].c]
Failed(e) == <<[r |-> 0, c |-> <<e>>]>>
IsSeq(es) == es = <<>> \/ es[1].r # 0
RECURSIVE StateAfter(_, _, _)
StateAfter(cs, n, s) == IF n = 0 THEN s ELSE Apply(cs[n], StateAfter(cs, n - 1, s))
At0(cs, i) == StateAfter(cs, i - 1, Init)         \* the state before command i
ValidSequence(cs) == \A i \in 1..Len(cs) : PreRes(cs[i], At0(cs, i)) = "yes"
Outcome(r, s) == LET M == {i \in 1..Len(memo) : memo[i].r = r /\ memo[i].s = s} IN
                 IF M = {} THEN <<"missing">> ELSE memo[CHOOSE i \in M : TRUE].out
-------------------------------------------------------------------------------
(* first generation: tries are made at the current state until a valid command  *)
(* comes out, up to TryLimit times for each command                             *)
(* progress of it: [es, s, t, res]: commands so far, state, tries for this one  *)
GenStart == [es |-> <<>>, s |-> Init, t |-> 0, res |-> "more"]
GenTry(g, r, out) ==
  LET c == IF out[1] = "c" THEN <<out[2], out[3]>> ELSE <<>>
      P == IF out[1] = "c" THEN PreRes(c, g.s) ELSE "no" IN
  CASE Breaks(out[1]) -> [g EXCEPT !.res = out[1]]
    [] Breaks(P) -> [g EXCEPT !.res = P]
    [] P = "yes" -> IF AppOk(c, g.s)
                    THEN [es |-> Append(g.es, [r |-> r, c |-> c]), s |-> Apply(c, g.s), t |-> 0, res |-> "more"]
                    ELSE [g EXCEPT !.res = AppBad]
    [] OTHER -> IF g.t + 1 = TryLimit THEN [g EXCEPT !.res = "gf"] ELSE [g EXCEPT !.t = g.t + 1]
-------------------------------------------------------------------------------
(* repair: entries that became invalid are generated again for the state they   *)
(* are now in, or dropped                                                       *)
RECURSIVE RepairFrom(_, _, _)
RepairFrom(es, i, s) ==
  IF i > Len(es) THEN es
  ELSE LET c == es[i].c P == PreRes(es[i].c, s) IN
       IF Breaks(P) THEN Failed(P)
       ELSE IF P = "yes" THEN (IF AppOk(c, s) THEN RepairFrom(es, i + 1, Apply(c, s)) ELSE Failed(AppBad))
       ELSE LET out == Outcome(es[i].r, s)
                d == SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))
                n == IF out[1] = "c" THEN <<out[2], out[3]>> ELSE <<>>
                Q == IF out[1] = "c" THEN PreRes(n, s) ELSE "no" IN
            CASE out[1] = "missing" -> Failed("missing")
              [] Breaks(out[1]) -> Failed(out[1])
              [] Breaks(Q) -> Failed(Q)
              [] Q = "yes" -> (IF AppOk(n, s) THEN RepairFrom([es EXCEPT ![i].c = n], i + 1, Apply(n, s)) ELSE Failed(AppBad))
              [] OTHER -> RepairFrom(d, i, s)
Repair(es) == RepairFrom(es, 1, Init)
(* shrinks: contiguous runs removed, longest first; then the valid shrinks of   *)
(* each command in turn. What can not be computed ends its list.                *)
RECURSIVE Upto(_, _)
Upto(ks, i) == IF i > Len(ks) THEN <<>>
               ELSE IF ~IsSeq(ks[i]) /\ ks[i] # Failed("missing") THEN <<>> ELSE <<ks[i]>> \o Upto(ks, i + 1)
Cut(es, a, n) == SubSeq(es, 1, a - 1) \o SubSeq(es, a + n, Len(es))
RECURSIVE RemovalsOf(_, _)
RemovalsOf(es, n) == IF n = 0 THEN <<>>
                     ELSE [a \in 1..(Len(es) - n + 1) |-> Cut(es, a, n)] \o RemovalsOf(es, n - 1)
RECURSIVE Valid(_, _, _)
Valid(ks, s, j) == IF j > Len(ks) THEN <<>>
                   ELSE LET P == PreRes(ks[j], s) IN
                        IF Breaks(P) THEN <<>> ELSE (IF P = "yes" THEN <<ks[j]>> ELSE <<>>) \o Valid(ks, s, j + 1)
Removals(es) == LET R == RemovalsOf(es, Len(es)) IN [i \in 1..Len(R) |-> Repair(R[i])]
Singles(es, i) == LET ks == Valid(Shrunk(es[i].c), At0(Cmds(es), i), 1) IN
                  [j \in 1..Len(ks) |-> Repair([es EXCEPT ![i].c = ks[j]])]
RECURSIVE SinglesFrom(_, _)
SinglesFrom(es, i) == IF i > Len(es) THEN <<>> ELSE Upto(Singles(es, i), 1) \o SinglesFrom(es, i + 1)
Shrinks(es) == IF IsSeq(es) THEN Upto(Removals(es), 1) \o SinglesFrom(es, 1) ELSE <<>>
-------------------------------------------------------------------------------
(* running: what is done to the system and how it ends                          *)
(* each run sees the model state before it and the number of runs before it     *)
(* how an operation ends for its caller                                          *)
Ends(x) == CASE x \in {"no", "gf"} -> "discard" [] x = "f" -> "fail" [] x = "e" -> "error"
RECURSIVE RunFrom(_, _, _, _)
RunFrom(cs, i, s, done) ==
  IF i > Len(cs) THEN [runs |-> done, res |-> "ok", s |-> s]
  ELSE LET c == cs[i] now == Append(done, <<c, s, Len(done)>>) P == PreRes(cs[i], s) IN
       IF P # "yes" THEN [runs |-> done, res |-> Ends(P), s |-> s]
       ELSE IF ~RunOk(c, s) THEN [runs |-> now, res |-> "fail", s |-> s]
       ELSE IF ~AppOk(c, s) THEN [runs |-> now, res |-> Ends(AppBad), s |-> s]
       ELSE RunFrom(cs, i + 1, Apply(c, s), now)
RunAll(cs) == RunFrom(cs, 1, Init, <<>>)
RECURSIVE WalkFrom(_, _, _)
WalkFrom(cs, i, s) ==
  IF i > Len(cs) THEN [res |-> "ok", s |-> s]
  ELSE IF PreRes(cs[i], s) # "yes" THEN [res |-> Ends(PreRes(cs[i], s)), s |-> s]
  ELSE IF ~AppOk(cs[i], s) THEN [res |-> Ends(AppBad), s |-> s]
  ELSE WalkFrom(cs, i + 1, Apply(cs[i], s))
ApplyAll(cs) == WalkFrom(cs, 1, Init)
(* how commands are shown                                                        *)
RECURSIVE Shown(_, _)
ShowCmd(c) == "<" \o ToString(c[1]) \o "," \o ToString(c[2]) \o ">"
Shown(cs, i) == IF i > Len(cs) THEN "" ELSE ShowCmd(cs[i]) \o "\n" \o Shown(cs, i + 1)
===============================================================================
