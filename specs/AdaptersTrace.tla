----------------------------- MODULE AdaptersTrace -----------------------------
(* cfg: fw, ms, ratio, shrink, how                                                *)
(* start [test, kind, id, desc], fix [what, id], body [test, live, out, desc,     *)
(*   tags, ex], end [test, pass, parts, printed, lines]: a test; parts: failures  *)
(*   the framework was told; printed: to cout, lines: of that                     *)
(* exit [rc, ids, runs, failures]: the process ended and said that the properties *)
(*   ids can be reproduced. again: a process that does.                           *)
(* optional, shown: values of boost::optional                                     *)
(* Google Mock: told [who, t, s, in, fails, fatal, at], check, enter, leave,      *)
(*   checked, installed, printed, gone                                                  *)
EXTENDS Adapters, VT
VARIABLES wait, inside, ex, msgs, shown, said, sid, l
F == INSTANCE Forward
gvars == <<wait, inside, ex, msgs, shown, said>>
tvars == <<avars, gvars, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ AInit /\ wait = <<>> /\ inside = FALSE /\ ex = <<>> /\ msgs = <<>> /\ shown = 0 /\ said = ""
G == S.cfg
C == [out |-> E.out, desc |-> E.desc, tags |-> E.tags, ex |-> E.ex]
TStart == At("start") /\ Begin([name |-> E.test, kind |-> E.kind, id |-> E.id, desc |-> E.desc]) /\ UNCHANGED gvars
TFix == /\ At("fix") /\ UNCHANGED gvars
        /\ CASE E.what = "make" -> Make(E.id) [] E.what = "setup" -> SetUp(E.id)
             [] E.what = "teardown" -> TearDown(E.id) [] E.what = "unmake" -> Unmake(E.id)
TBody == At("body") /\ E.test = test.name /\ Run(C, E.live, G.ms, G.ratio, G.shrink) /\ UNCHANGED gvars
Ks == {k \in Shrinks(G.shrink) : E.parts = Told(G.fw, "failed", k)}
TEndTest == /\ At("end") /\ E.test = test.name
            /\ LET v == IF test.kind = "ordinary" THEN "ok" ELSE Verdict(G.ms, G.ratio)
                   h == IF G.fw = "gtest" THEN 0 ELSE 1
                   ls == SubSeq(E.lines, h + 2, h + 1 + Cardinality(DOMAIN dist))
               IN /\ (IF v = "failed" THEN Cardinality(Ks) = 1 ELSE E.parts = Told(G.fw, v, 0)) = TRUE
                  /\ (IF Prints(G.fw, v)
                      THEN LinesOk(dist, nS, ls) /\ E.printed = Heading(G.fw) \o Text(v, 0, ls) \o "\n"
                      ELSE E.printed = "") = TRUE
                  /\ End(G.ms, G.ratio, E.pass, IF v = "failed" THEN CHOOSE k \in Ks : TRUE ELSE 0)
            /\ UNCHANGED gvars
TExit == /\ At("exit") /\ E.rc = 0 /\ test = NoTest /\ wait = <<>>
         /\ IF G.fw = "gmock" THEN G.how = "installed" => E.runs = 2 /\ E.failures = shown
            ELSE {E.ids[i] : i \in 1..Len(E.ids)} = (IF again THEN {} ELSE Ids) /\ Len(E.ids) = Cardinality(Ids) * (IF again THEN 0 ELSE 1)
         /\ UNCHANGED <<avars, gvars>>
TAgain == At("again") /\ Again /\ UNCHANGED gvars
(* optional values: as those of the library                                       *)
TOptional == At("optional") /\ E.boost = E.maybe /\ UNCHANGED <<avars, gvars>>
TShown == /\ At("shown") /\ E.some = E.x /\ E.none = "boost::none" /\ E.nested = "[" \o E.x \o ", boost::none]" /\ E.str = "\"a\""
          /\ UNCHANGED <<avars, gvars>>
X == [t |-> E.t, s |-> E.s, in |-> E.in, fails |-> E.fails, fatal |-> E.fatal, at |-> E.at]
Others == <<nD, test, fix, failed, again>>
TTold == At("told") /\ F!Tell(E.who, X, G.how) /\ UNCHANGED Others
TCheck == At("check") /\ F!Check(E.printed) /\ nD' = 0 /\ UNCHANGED <<test, fix, failed, again>>
Found == best.out = "F" \/ TooMany(G.ms, G.ratio)
TEnter == At("enter") /\ (Found \/ ~Enough(G.ms)) /\ F!Enter(E.ex) /\ UNCHANGED Others
TLeave == /\ At("leave") /\ F!Leave(E.out, E.desc, Found)
          /\ nD' = IF ~Found /\ F!Outcome(E.out, E.desc).out = "D" THEN nD + 1 ELSE nD
          /\ UNCHANGED <<test, fix, failed, again>>
TChecked == /\ At("checked") /\ (best.out = "F" \/ Enough(G.ms) \/ TooMany(G.ms, G.ratio))
            /\ E.pass = (best.out # "F" /\ Enough(G.ms))
            /\ F!Checked(E.pass, E.text) /\ UNCHANGED Others
TInstalled == At("installed") /\ G.how = "installed" /\ E.alone /\ UNCHANGED <<avars, gvars>>
TPrinted == At("printed") /\ G.how = "nobody" /\ E.text = said /\ UNCHANGED <<avars, gvars>>
TGone == At("gone") /\ UNCHANGED <<avars, gvars>>
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<avars, gvars, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == \/ TStart \/ TFix \/ TBody \/ TEndTest \/ TExit \/ TAgain \/ TOptional \/ TShown
         \/ TTold \/ TCheck \/ TEnter \/ TLeave \/ TChecked \/ TInstalled \/ TPrinted \/ TGone \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
