------------------------------- MODULE Contexts -------------------------------
(* Which execution a pick, a log line, a tag or a reported result belongs to    *)
(* (property C06), as seen from a program of nested executions.                 *)
(*   prop  the body of a property: takes picks, collects log, tags, results     *)
(*   exec  the body of a generator made of picks: takes picks                   *)
(*   pick  generating a value for a pick: hides everything outside              *)
(* The rules are those of ImplicitEnv with two parameters: who takes picks      *)
(* (bound by prop and exec) and who collects (bound by prop).                   *)
EXTENDS ImplicitEnv
VARIABLE execs    \* per bound execution: [pick -> names picked, log, tags, fails]
cvars == <<frames, execs>>
Nobody == 0
Fresh == [picks |-> <<>>, log |-> "", tags |-> <<>>, fails |-> 0]
CtxStart == EnvStart /\ execs = <<>>
Taker == ValueIn(frames, "taker", Nobody)
Sink == ValueIn(frames, "sink", Nobody)

EnterExec == /\ execs' = Append(execs, Fresh)
             /\ frames' = Append(frames, Bind("taker", Len(execs) + 1))
EnterProp == /\ execs' = Append(execs, Fresh)
             /\ frames' = Append(Append(frames, Bind("taker", Len(execs) + 1)), Bind("sink", Len(execs) + 1))
LeaveExec == /\ frames[Len(frames)].k = "bind" /\ frames[Len(frames)].p = "taker"
             /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ UNCHANGED execs
LeaveProp == /\ frames[Len(frames)].k = "bind" /\ frames[Len(frames)].p = "sink"
             /\ frames' = SubSeq(frames, 1, Len(frames) - 2) /\ UNCHANGED execs
PickBegins(name) == /\ Taker # Nobody
                    /\ execs' = [execs EXCEPT ![Taker].picks = Append(@, name)]
                    /\ frames' = Append(frames, Scope)
PickEnds == frames[Len(frames)].k = "scope" /\ Len(frames) > 1 /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ UNCHANGED execs
PickRefused == Taker = Nobody /\ UNCHANGED cvars
LogLine(s) == IF Sink = Nobody THEN UNCHANGED cvars
              ELSE execs' = [execs EXCEPT ![Sink].log = @ \o s] /\ UNCHANGED frames
TagWith(s) == IF Sink = Nobody THEN UNCHANGED cvars
              ELSE execs' = [execs EXCEPT ![Sink].tags = Append(@, s)] /\ UNCHANGED frames
ReportFailure == IF Sink = Nobody THEN UNCHANGED cvars
                 ELSE execs' = [execs EXCEPT ![Sink].fails = @ + 1] /\ UNCHANGED frames
===============================================================================
