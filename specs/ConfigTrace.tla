------------------------------ MODULE ConfigTrace ------------------------------
(* parse [in, ok, m]     the pairs of a text, or refused                        *)
(* print [m, out]        pairs as text                                          *)
(* conf [in, def, ok, c, msg]   a text applied to the configuration def          *)
(* forms [c, full, min]  a configuration as text                                *)
(* eq [a, b, eq, ne]     were two configurations equal, unequal                  *)
(* proc [in, has, rc, c, msg, using]   a new process with that RC_PARAMS (or    *)
(*                       none): it ended with rc, printed its configuration, and *)
(*                       the text after "Using configuration: "                  *)
(* Configurations have their reproduction map encoded (rep).                    *)
EXTENDS Config, VT
VARIABLES sid, l
tvars == <<sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1

SamePairs(a, b) == Len(a) = Len(b) /\ SetOf(a) = SetOf(b)
ParseOk == LET p == TLCEval(Parse(E.in)) IN IF p.ok THEN E.ok /\ SamePairs(E.m, p.m) ELSE ~E.ok
TParse == At("parse") /\ (ParseOk = TRUE)
PrintOk == LET p == TLCEval(Parse(E.out)) IN p.ok /\ SamePairs(p.m, E.m)
TPrint == At("print") /\ (PrintOk = TRUE)
(* a recorded configuration                                                     *)
Conf(c) == [c EXCEPT !.rep = LET d == DecMap(c.rep, 1) IN IF d.ok THEN d.v ELSE <<<<"?">>>>]
(* x occurs in s                                                                *)
Occurs(x, s) == \E i \in 0..(Len(s) - Len(x)) : \A j \in 1..Len(x) : s[i + j] = x[j]
Names(msg, m) == \E k \in Wrong(m) \cup Doubtful(m) : Occurs(<<39>> \o k \o <<39>>, msg)
ConfOk(in, def, ok, c, msg) ==
  LET p == TLCEval(Parse(in)) IN
  IF ~p.ok THEN ~ok
  ELSE IF ok THEN AppliedIs(p.m, def, Conf(c))
  ELSE Wrong(p.m) \cup Doubtful(p.m) # {} /\ Names(msg, p.m)
TConf == At("conf") /\ (ConfOk(E.in, Conf(E.def), E.ok, E.c, E.msg) = TRUE)
FormsOk == LET c == TLCEval(Conf(E.c)) f == TLCEval(Parse(E.full)) m == TLCEval(Parse(E.min)) IN
           /\ f.ok /\ m.ok
           /\ Wrong(f.m) = {} /\ Wrong(m.m) = {}
           /\ AppliedIs(f.m, Default, c) /\ AppliedIs(m.m, Default, c)
           /\ Known(f.m) = Keys
           /\ \A k \in Known(m.m) : k = kSeed \/ Differs(k, c)
TForms == At("forms") /\ (FormsOk = TRUE)
(* without a seed it is any                                                     *)
ProcOk == LET p == TLCEval(Parse(IF E.has THEN E.in ELSE <<>>))
              d == IF E.rc = 0 THEN [Default EXCEPT !.seed = E.c.seed] ELSE Default
              u == TLCEval(Parse(E.using)) IN
  /\ ConfOk(IF E.has THEN E.in ELSE <<>>, d, E.rc = 0, E.c, E.msg)
  /\ E.rc \in {0, 1}
  /\ E.rc = 0 => /\ u.ok /\ AppliedIs(u.m, Default, Conf(E.c)) /\ Has(u.m, kSeed)
TProc == At("proc") /\ (ProcOk = TRUE)
(* equality                                                                     *)
TEq == At("eq") /\ LET x == (SameConfig(Conf(E.a), Conf(E.b)) = TRUE) IN E.eq = x /\ E.ne = ~x
(* seeds of processes that were given none                                      *)
TSeeds == At("seeds") /\ \E i, j \in 1..Len(E.s) : E.s[i] # E.s[j]
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED sid
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TEq \/ TParse \/ TPrint \/ TConf \/ TForms \/ TProc \/ TSeeds \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
