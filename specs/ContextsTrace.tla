----------------------------- MODULE ContextsTrace -----------------------------
(* prop/exec: the body starts; endexec; endprop [log, tags, fails]              *)
(*   (id of the execution that ends is the innermost one)                       *)
(* pick [name] starts generating, picked: it is over (value or exception);      *)
(* refused: the pick threw the documented error without starting anything       *)
(* log/tag/fail; case [id-free: picks]: counterexample of the case just ended   *)
EXTENDS Contexts, VT
VARIABLES sid, l, done
tvars == <<cvars, sid, l, done>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ CtxStart /\ done = <<>>
TProp == At("prop") /\ EnterProp /\ UNCHANGED done
TExec == At("exec") /\ EnterExec /\ UNCHANGED done
TEndExec == At("endexec") /\ LeaveExec /\ UNCHANGED done
TEndProp == At("endprop") /\ done' = Append(done, Sink) /\ LeaveProp
TPick == At("pick") /\ PickBegins(E.name) /\ UNCHANGED done
TPicked == At("picked") /\ PickEnds /\ UNCHANGED done
TRefused == At("refused") /\ PickRefused /\ UNCHANGED done
TLog == At("log") /\ LogLine(E.s) /\ UNCHANGED done
TTag == At("tag") /\ TagWith(E.s) /\ UNCHANGED done
TFail == At("fail") /\ ReportFailure /\ UNCHANGED done
(* the outcome of the property execution that ended last and is not yet claimed *)
TCase == /\ At("case") /\ done # <<>>
         /\ LET x == execs[done[Len(done)]] IN
              E.log = x.log /\ E.tags = x.tags /\ E.picks = x.picks /\ E.failed = (x.fails > 0)
         /\ done' = SubSeq(done, 1, Len(done) - 1) /\ UNCHANGED cvars
TEnd == l = Len(S.ev) + 1 /\ Len(frames) = 1 /\ done = <<>> /\ l' = l + 1 /\ UNCHANGED <<cvars, sid, done>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TProp \/ TExec \/ TEndExec \/ TEndProp \/ TPick \/ TPicked \/ TRefused \/ TLog \/ TTag \/ TFail \/ TCase \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
