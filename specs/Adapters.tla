-------------------------------- MODULE Adapters --------------------------------
(* Properties run as tests of a test framework (property C23). Each test is one   *)
(* property; its cases may run inside a fixture that is made for the case. Report *)
(* says what the run of a property amounts to; here is what the framework is told *)
(* about it, and what fixtures go through.                                        *)
EXTENDS Report
VARIABLES nD,      \* discards
          test,    \* the test that is running: [name, kind, id, desc], or NoTest
          fix,     \* fixtures that exist, oldest first: [id, st]
          failed,  \* name of test -> [id, k, c]: how it failed in the first process
          again    \* this process reproduces
avars == <<rvars, nD, test, fix, failed, again>>
NoTest == [name |-> "", kind |-> "none", id |-> "", desc |-> ""]
AInit == RInit /\ nD = 0 /\ test = NoTest /\ fix = <<>> /\ failed = <<>> /\ again = FALSE

Outer == IF test.kind = "typed" THEN 1 ELSE 0  \* typed tests stand in a fixture themselves
Fixed == test.kind \in {"fixture", "typed", "made"}
Named(id) == id # "" /\ \E n \in DOMAIN failed : failed[n].id = id
Begin(t) == /\ test = NoTest /\ fix = <<>> /\ test' = t /\ nD' = 0
            /\ phase' = "search" /\ nS' = 0 /\ dist' = <<>> /\ best' = NoCase /\ nShr' = 0
            /\ UNCHANGED <<fix, failed, again>>
(* fixtures: made, set up, used by one case, torn down if the case came back,     *)
(* unmade                                                                         *)
Make(id) == /\ test # NoTest /\ Fixed /\ Len(fix) <= Outer /\ fix' = Append(fix, [id |-> id, st |-> "made"])
            /\ \A i \in 1..Len(fix) : fix[i].st = "set" /\ fix[i].id # id
            /\ UNCHANGED <<rvars, nD, test, failed, again>>
Stage(id, from, to) == /\ fix # <<>> /\ fix[Len(fix)].id = id /\ fix[Len(fix)].st = from
                       /\ fix' = [fix EXCEPT ![Len(fix)].st = to]
                       /\ UNCHANGED <<rvars, nD, test, failed, again>>
SetUp(id) == test.kind \in {"fixture", "typed"} /\ Stage(id, "made", "set")
(* the outer fixture goes when the test is over                                   *)
TearDown(id) == test.kind \in {"fixture", "typed"} /\ Stage(id, IF Len(fix) > Outer THEN "came back" ELSE "set", "torn")
Unmake(id) == /\ fix # <<>> /\ fix[Len(fix)].id = id
              /\ fix[Len(fix)].st \in {"torn", "left"} \cup (IF test.kind = "made" THEN {"came back"} ELSE {})
              /\ fix' = SubSeq(fix, 1, Len(fix) - 1)
              /\ UNCHANGED <<rvars, nD, test, failed, again>>
Ready(live) == IF Fixed THEN Len(fix) = Outer + 1 /\ fix[Len(fix)].id = live
                             /\ fix[Len(fix)].st = IF test.kind = "made" THEN "made" ELSE "set"
               ELSE fix = <<>> /\ live = 0
Used(c) == fix' = IF Fixed THEN [fix EXCEPT ![Len(fix)].st = IF c.out = "S" THEN "came back" ELSE "left"] ELSE fix
(* ms, ratio: parameters of the run. A case may be run more than once, and only   *)
(* the last failure counts.                                                       *)
Enough(ms) == nS = ms
TooMany(ms, ratio) == nD > ms * ratio
Run(c, live, ms, ratio, shrink) ==
  /\ test # NoTest /\ Ready(live) /\ Used(c)
  /\ IF again THEN Named(test.id) /\ test.name \in DOMAIN failed /\ best' = c /\ UNCHANGED <<phase, nS, dist, nShr, nD>>
     ELSE IF best.out = "F" THEN (shrink \/ c = best) /\ Try(c) /\ UNCHANGED nD
     ELSE IF TooMany(ms, ratio) THEN c = best /\ UNCHANGED <<rvars, nD>>   \* the case that is reported runs once more
     ELSE ~Enough(ms) /\ Case(c) /\ nD' = nD + (IF c.out = "D" THEN 1 ELSE 0)
  /\ UNCHANGED <<test, failed, again>>
(* what the run amounts to                                                        *)
Verdict(ms, ratio) == IF again THEN (IF Named(test.id) THEN "failed" ELSE "ok")
                      ELSE IF best.out = "F" THEN "failed" ELSE IF TooMany(ms, ratio) THEN "gaveup" ELSE "ok"
Done(ms, ratio) == \/ again /\ (IF Named(test.id) THEN best = failed[test.name].c ELSE best = NoCase)
                   \/ ~again /\ (best.out = "F" \/ Enough(ms) \/ TooMany(ms, ratio))
(* shrinks a failure can have taken: not more than there were failing cases        *)
Shrinks(shrink) == IF again THEN {failed[test.name].k} ELSE IF shrink THEN 0..nShr ELSE {0}
Text(v, k, lines) == CASE v = "ok" -> PassText(nS, dist, lines)
                       [] v = "gaveup" -> GaveUpText(nS, best.desc)
                       [] v = "failed" -> FailText(IF again THEN 0 ELSE nS, k, best.ex, best.desc)
(* what the framework is told: the failures with their texts (Google Test adds an  *)
(* end of line)                                                                    *)
Told(fw, v, k) == IF v = "ok" THEN <<>>
                  ELSE LET t == Text(v, k, <<>>) IN
                       <<CASE fw = "gtest" -> "Failed\n" \o t \o "\n\n"
                           [] fw = "catch" -> t \o "\n"
                           [] OTHER -> "\n" \o t>>
(* what is printed about a test that passes                                       *)
Prints(fw, v) == v = "ok" /\ (dist # <<>> \/ test.kind = "wordy")
Heading(fw) == IF fw = "gtest" THEN "" ELSE "- " \o test.desc \o "\n"
(* k: shrinks the failure took                                                   *)
End(ms, ratio, pass, k) ==
  /\ test # NoTest /\ fix = <<>>
  /\ IF test.kind = "ordinary" THEN pass /\ best = NoCase
     ELSE Done(ms, ratio) /\ pass = (Verdict(ms, ratio) = "ok")
  /\ failed' = IF ~again /\ best.out = "F" THEN [n \in DOMAIN failed \cup {test.name} |->
                    IF n = test.name THEN [id |-> test.id, k |-> k, c |-> best] ELSE failed[n]] ELSE failed
  /\ test' = NoTest
  /\ UNCHANGED <<rvars, nD, fix, again>>
(* the process is over: failures with an id can be reproduced                     *)
Ids == {failed[n].id : n \in DOMAIN failed} \ {""}
Again == test = NoTest /\ ~again /\ Ids # {} /\ again' = TRUE /\ UNCHANGED <<rvars, nD, test, fix, failed>>
=================================================================================
