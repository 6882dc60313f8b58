--------------------------- MODULE ImplicitEnvTrace ---------------------------
(* scope, bind [p, v], leave, read [p, v], write [p, v]. The default of p is    *)
(* cfg.defaults[p]. After the last event every explicit frame is gone.          *)
EXTENDS ImplicitEnv, VT
VARIABLES sid, l
tvars == <<frames, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Default(p) == S.cfg.defaults[p]
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ EnvStart
TScope == At("scope") /\ EnterScope
TBind == At("bind") /\ EnterBind(E.p, E.v)
TLeave == At("leave") /\ Leave
TRead == At("read") /\ E.v = ValueIn(frames, E.p, Default(E.p)) /\ Store(E.p, E.v)
TWrite == At("write") /\ Store(E.p, E.v)
TEnd == l = Len(S.ev) + 1 /\ Len(frames) = 1 /\ l' = l + 1 /\ UNCHANGED <<frames, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TScope \/ TBind \/ TLeave \/ TRead \/ TWrite \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
