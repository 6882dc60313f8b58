------------------------------ MODULE Observers ------------------------------
(* Who is told what during test runs (property C19). Cases and shrinks run; each *)
(* is announced once it has run, to every observer in turn, before anything else *)
(* runs; the end of the run is announced last. Progress marks and the summary of *)
(* failures are functions of what is announced.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES k,        \* number of observers
          phase,    \* "idle" | "search" | "shrink" | "ended"
          last,     \* what ran last
          open,     \* it still has to be announced
  since,    \* something has run since the last announcement
          telling,  \* [a, next]: the announcement being made, the observer to be told next; next = 0: none
          inbox,    \* observer -> announcements of this run
          best,     \* the case that fails
          path,     \* positions of the accepted shrinks
          pos,      \* shrinks of the best case tried so far
          nS,       \* cases that succeeded
          text,     \* progress output of this run
          failed,   \* failures of all runs: set of <<id, number of the run>>
          stop      \* the hook called before the minimal case is run: "no" | "called" | "run"
ovars == <<k, phase, last, open, since, telling, inbox, best, path, pos, nS, text, failed, stop>>
NoRun == [d |-> "", out |-> "none"]
Nobody == [a |-> [t |-> "none"], next |-> 0]
OInit(n) == /\ k = n /\ phase = "idle" /\ last = NoRun /\ open = FALSE /\ since = FALSE /\ telling = Nobody
            /\ inbox = [i \in 1..n |-> <<>>] /\ best = NoRun /\ path = <<>> /\ pos = 0 /\ nS = 0 /\ text = "" /\ failed = {} /\ stop = "no"

Start == /\ phase \in {"idle", "ended"} /\ telling = Nobody
         /\ phase' = "search" /\ last' = NoRun /\ open' = FALSE /\ since' = FALSE /\ inbox' = [i \in 1..k |-> <<>>]
         /\ best' = NoRun /\ path' = <<>> /\ pos' = 0 /\ nS' = 0 /\ text' = "" /\ stop' = "no" /\ UNCHANGED <<k, telling, failed>>
(* something runs: what has run before has been announced; the best case and    *)
(* the case announced last may be run again                                     *)
Ran(c, again) ==
  /\ phase \in {"search", "shrink"} /\ telling = Nobody
  /\ (open => again)
  /\ again => c = last \/ c = best
  /\ stop # "no" => c = best
  /\ stop' = (IF stop = "no" THEN "no" ELSE "run")
  /\ last' = c /\ open' = (IF again /\ c # last THEN FALSE ELSE IF again THEN open ELSE TRUE) /\ since' = TRUE
  /\ UNCHANGED <<k, phase, telling, inbox, best, path, pos, nS, text, failed>>
(* shrinking is over: the hook for debuggers, then only the minimal case runs    *)
Hook == /\ phase \in {"search", "shrink"} /\ telling = Nobody /\ ~open /\ best # NoRun /\ stop = "no"
        /\ stop' = "called"
        /\ UNCHANGED <<k, phase, last, open, since, telling, inbox, best, path, pos, nS, text, failed>>
(* the announcements                                                            *)
Finished(c) == [t |-> "case", d |-> c.d, out |-> c.out]
Tried(c) == [t |-> "try", d |-> c.d, acc |-> c.out = "F"]
Ended(r, n, p) == [t |-> "end", r |-> r, n |-> n, path |-> p]
Mark(a, vp, vs) ==
  CASE a.t = "case" -> IF ~vp THEN "" ELSE IF a.out = "S" THEN "." ELSE IF a.out = "D" THEN "x"
                       ELSE "\nFound failure, shrinking" \o (IF vs THEN ":" ELSE "...") \o "\n"
    [] a.t = "try" -> IF ~vs THEN "" ELSE IF a.acc THEN "!" ELSE "."
    [] OTHER -> IF vp \/ vs THEN "\n" ELSE ""
Begin(a, vp, vs) == /\ telling = Nobody /\ telling' = [a |-> a, next |-> 1] /\ text' = text \o Mark(a, vp, vs)
AnnounceCase(vp, vs) ==
  /\ phase = "search" /\ best = NoRun /\ open /\ Begin(Finished(last), vp, vs)
  /\ open' = FALSE /\ since' = FALSE
  /\ best' = IF last.out = "F" THEN last ELSE best
  /\ nS' = IF last.out = "S" THEN nS + 1 ELSE nS
  /\ UNCHANGED <<k, phase, last, inbox, path, pos, failed, stop>>
(* a shrink may be the same as one seen before: then it need not be "open"      *)
AnnounceTry(vp, vs) ==
  /\ phase \in {"search", "shrink"} /\ best # NoRun /\ stop = "no" /\ since /\ Begin(Tried(last), vp, vs)
  /\ phase' = "shrink" /\ open' = FALSE /\ since' = FALSE
  /\ (IF last.out = "F" THEN best' = last /\ path' = Append(path, pos) /\ pos' = 0 ELSE pos' = pos + 1 /\ UNCHANGED <<best, path>>)
  /\ UNCHANGED <<k, last, inbox, nS, failed, stop>>
AnnounceEnd(r, id, run, vp, vs) ==
  /\ phase \in {"search", "shrink"} /\ ~open /\ Begin(Ended(r, nS, path), vp, vs)
  /\ (r = "failed") = (best # NoRun)
  /\ stop = (IF r = "failed" THEN "run" ELSE "no")
  /\ (r = "gaveup" => last.out = "D")
  /\ phase' = "ended"
  /\ failed' = IF r = "failed" /\ id # "" THEN failed \cup {<<id, run>>} ELSE failed
  /\ UNCHANGED <<k, last, open, since, inbox, best, path, pos, nS, stop>>
Tell == /\ telling.next > 0
        /\ inbox' = [inbox EXCEPT ![telling.next] = Append(@, telling.a)]
        /\ telling' = IF telling.next = k THEN Nobody ELSE [telling EXCEPT !.next = @ + 1]
        /\ UNCHANGED <<k, phase, last, open, since, best, path, pos, nS, text, failed, stop>>
(* the summary printed at exit names ids: those of the failures, each once      *)
SummaryIds == {f[1] : f \in failed}
===============================================================================
