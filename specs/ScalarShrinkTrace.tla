--------------------------- MODULE ScalarShrinkTrace ---------------------------
(* at [v]: the walk is now at this value (the first one, or the one accepted)   *)
(* shrinks [list]: what it shrinks to, in order                                 *)
(* cfg.kind: towards / integral / real / boolean / character; cfg.target;       *)
(* cfg.min: smallest value of a signed type (integral)                          *)
EXTENDS ScalarShrink, VT
VARIABLES sid, l, v, list
tvars == <<sid, l, v, list>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ v = <<>> /\ list = <<>>
In(x, s) == \E i \in 1..Len(s) : s[i] = x
TAt == At("at") /\ (l = 1 \/ In(E.v, list)) /\ v' = E.v /\ list' = <<>>
ListOf == CASE S.cfg.kind = "towards" -> Towards(v, S.cfg.target)
            [] S.cfg.kind = "integral" -> Integral(v, v # S.cfg.min)
            [] S.cfg.kind = "real" -> Real(v)
            [] S.cfg.kind = "boolean" -> Boolean(v)
            [] S.cfg.kind = "character" -> Character(v)
TShrinks == At("shrinks") /\ E.list = ListOf /\ list' = E.list /\ UNCHANGED v
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<sid, v, list>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TAt \/ TShrinks \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
