-------------------------------- MODULE Forward --------------------------------
(* The listener that makes failures of Google Mock and Google Test failures of    *)
(* the property they happen in (property C23). Everything the framework tells is  *)
(* passed on to the listener that was there before, except what happens inside a  *)
(* property and is not fatal: that is reported to the property.                   *)
EXTENDS Report
VARIABLES wait,    \* <<>>, or what one listener has been told and the other has not: <<[who, x]>>
          inside,  \* a case is running
          ex,      \* its example
          msgs,    \* failures reported in it, in order
          shown,   \* failing parts that were passed on
          said     \* what was printed as there is nobody to pass it on to
fvars == <<rvars, wait, inside, ex, msgs, shown, said>>
FInit == RInit /\ wait = <<>> /\ inside = FALSE /\ ex = <<>> /\ msgs = <<>> /\ shown = 0 /\ said = ""

(* x: [t, s, in, fails, fatal, at]                                                *)
Reported(x) == x.t = "part" /\ inside /\ ~x.fatal
(* how: "before": there is one that is told as well; "installed": it is not seen; *)
(* "nobody": there is none, so that parts are printed instead                     *)
Tell(who, x, how) ==
  /\ x.in = inside
  /\ IF Reported(x)
     THEN who = "it" /\ wait = <<>> /\ wait' = <<>> /\ shown' = shown
          /\ msgs' = IF x.fails THEN Append(msgs, x.at \o x.s) ELSE msgs
     ELSE /\ msgs' = msgs
          /\ IF how # "before" THEN who = "it" /\ wait' = <<>>
             ELSE IF wait = <<>> THEN wait' = <<[who |-> who, x |-> x]>>
             ELSE wait[1].who # who /\ wait[1].x = x /\ wait' = <<>>
          /\ shown' = IF who = "it" /\ x.fails THEN shown + 1 ELSE shown
  /\ said' = IF ~Reported(x) /\ x.t = "part" /\ how = "nobody" THEN said \o x.at \o x.s \o "\n" ELSE said
  /\ UNCHANGED <<rvars, inside, ex>>
RECURSIVE Both(_)
Both(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "\n\n" \o Both(Tail(ss))
Check(printed) == /\ ~inside /\ wait = <<>> /\ phase \in {"idle", "over"} /\ Start /\ printed = said /\ said' = ""
                  /\ UNCHANGED <<wait, inside, ex, msgs, shown>>
Enter(e) == /\ phase = "search" /\ ~inside /\ wait = <<>> /\ inside' = TRUE /\ ex' = e /\ msgs' = <<>>
            /\ UNCHANGED <<rvars, wait, shown, said>>
(* how the case comes out: a discard is a discard, otherwise any failure counts   *)
Outcome(out, desc) ==
  IF out = "D" THEN [out |-> "D", desc |-> desc, tags |-> <<>>, ex |-> ex]
  ELSE LET all == IF out = "F" THEN Append(msgs, desc) ELSE msgs IN
       IF all = <<>> THEN [out |-> "S", desc |-> desc, tags |-> <<>>, ex |-> ex]
       ELSE [out |-> "F", desc |-> Both(all), tags |-> <<>>, ex |-> ex]
Leave(out, desc, known) ==
  /\ inside /\ wait = <<>> /\ inside' = FALSE
  /\ IF known THEN Outcome(out, desc) = best /\ UNCHANGED rvars   \* the case that is reported runs once more
     ELSE Case(Outcome(out, desc))
  /\ UNCHANGED <<wait, ex, msgs, shown, said>>
Checked(pass, text) ==
  /\ ~inside
  /\ \/ EndOk /\ pass /\ text = said \o PassText(nS, dist, <<>>)
     \/ EndFailed /\ ~pass /\ text = said \o FailText(nS, nShr, best.ex, best.desc)
     \/ EndGaveUp /\ ~pass /\ text = said \o GaveUpText(nS, best.desc)
  /\ said' = ""
  /\ UNCHANGED <<wait, inside, ex, msgs, shown>>
=================================================================================
