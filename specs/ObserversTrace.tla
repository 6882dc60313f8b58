--------------------------- MODULE ObserversTrace ---------------------------
(* start []; ran [d, out]: the property was run; told [who, a, d, out | acc | r, n, path] *)
(* minimal []: rc::beforeMinimalTestCase was called                             *)
(* out [text]: progress output of this run so far                              *)
(* res [r, n, path, id, run]: what the caller got                               *)
(* late [who, i, d]: the i-th announcement, looked at again after the run      *)
(* summary [text, frame, ids, good]: printed when the observers go              *)
EXTENDS Observers, VT
VARIABLES sid, l
tvars == <<ovars, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
F == S.cfg
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ OInit(Scenarios[sid].cfg.k)
TStart == At("start") /\ Start
C == [d |-> E.d, out |-> E.out]
TMinimal == At("minimal") /\ Hook
TRan == At("ran") /\ Ran(C, C = last \/ C = best)
(* the first observer told begins the announcement                              *)
Said(a) == /\ a.t = E.t
           /\ CASE a.t = "case" -> a.d = E.d /\ a.out = E.out
                [] a.t = "try" -> a.d = E.d /\ a.acc = E.acc
                [] OTHER -> a.r = E.r /\ a.n = E.n /\ (a.r = "failed" => a.path = E.path) /\ E.meta = TRUE
TBegin == /\ l <= Len(S.ev) /\ E.e = "told" /\ E.who = 1 /\ telling = Nobody /\ UNCHANGED <<sid, l>>
          /\ CASE E.t = "case" -> AnnounceCase(F.vp, F.vs)
               [] E.t = "try" -> AnnounceTry(F.vp, F.vs)
               [] E.t = "end" -> AnnounceEnd(E.r, E.id, E.run, F.vp, F.vs)
               [] OTHER -> FALSE
TTold == At("told") /\ telling.next = E.who /\ telling.next > 0 /\ Said(telling.a) /\ Tell
TOut == At("out") /\ telling = Nobody /\ E.text = text /\ UNCHANGED ovars
TRes == /\ At("res") /\ phase = "ended" /\ telling = Nobody
        /\ LET a == inbox[1][Len(inbox[1])] IN a.r = E.r /\ a.n = E.n /\ (E.r = "failed" => a.path = E.path)
        /\ UNCHANGED ovars
(* an announcement that was kept still says the same                            *)
TLate == /\ At("late") /\ telling = Nobody /\ E.i \in 1..Len(inbox[E.who]) /\ inbox[E.who][E.i].d = E.d /\ UNCHANGED ovars
TSummary == /\ At("summary") /\ telling = Nobody
            /\ IF SummaryIds = {} THEN E.text = ""
               ELSE E.frame /\ E.good /\ {E.ids[i] : i \in 1..Len(E.ids)} = SummaryIds /\ Len(E.ids) = Cardinality(SummaryIds)
            /\ UNCHANGED ovars
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<ovars, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TStart \/ TMinimal \/ TRan \/ TBegin \/ TTold \/ TOut \/ TRes \/ TLate \/ TSummary \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
