------------------------------- MODULE ShowTrace ------------------------------
(* show [v, text, fmt]: a value was shown; fmt: the stream's formatting is as    *)
(* it was, also when it had been changed before                                 *)
(* type [t, text]: a type was named                                             *)
EXTENDS Show, VT
VARIABLES sid, l
tvars == <<svars, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED <<sid, svars>>
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ SInit([k |-> "un"], "")
TShow == At("show") /\ E.text = Shown(E.v) /\ E.fmt = TRUE
TType == At("type") /\ E.text = TypeName(E.t)
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<svars, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TShow \/ TType \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
