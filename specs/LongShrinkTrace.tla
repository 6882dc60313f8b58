---------------------------- MODULE LongShrinkTrace ----------------------------
(* Events: orig            the original case was run                            *)
(*         rej [n]         n shrinks in a row were run and reported rejected    *)
(*         acc [n]         n in a row were run and reported accepted            *)
(*         min             the minimal case was run                             *)
(*         res [path, at]  the result: path and description of the minimal case *)
(*         walk [path, at] where a path leads                                   *)
(*         lmin [n, at]    the predicate based search: steps and the minimum    *)
(* Anything out of order (a shrink run twice, skipped, reported wrongly or not  *)
(* at all) is recorded as an event "odd", which has no step.                    *)
EXTENDS LongShrink, VT, Integers
VARIABLES sid, l
tvars == <<lvars, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ StartWith(Scenarios[sid].cfg.w)

TOrig == At("orig") /\ Original
TRej  == At("rej") /\ Rejected(E.n)
TAcc  == At("acc") /\ Accepted(E.n)
TMin  == At("min") /\ Minimal
TRes  == At("res") /\ phase = "final" /\ E.path = Result /\ E.at = Depth /\ UNCHANGED lvars
TRepr == At("repr") /\ phase = "final" /\ E.path = Result /\ E.at = Depth /\ UNCHANGED lvars
TWalk == At("walk") /\ phase = "final" /\ E.path = SubSeq(Result, 1, E.n) /\ E.at = E.n /\ UNCHANGED lvars
TLmin == At("lmin") /\ AtEnd /\ E.n = Depth /\ E.at = Depth /\ phase' = "final" /\ UNCHANGED <<w, level, idx, path>>
TEnd  == l = Len(S.ev) + 1 /\ phase = "final" /\ l' = l + 1 /\ UNCHANGED <<lvars, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TOrig \/ TRej \/ TAcc \/ TMin \/ TRes \/ TRepr \/ TWalk \/ TLmin \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
