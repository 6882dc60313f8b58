----------------------------- MODULE ReportTrace -----------------------------
(* run []               a run starts                                            *)
(* case, try [out, desc, tags, ex]   what the property did in a case, a shrink  *)
(* cases [k, ...]      the same case k times in a row                           *)
(* res [type, n, dist, k, desc, ex]  the result of the run                      *)
(* over [type]          the run is over, with this verdict                      *)
(* text [type, text, lines]  the message printed about the run; lines: those    *)
(*    after the first                                                           *)
(* repro [text]         the message of the reproduced failure                   *)
(* print [type, n, dist, k, desc, ex, text, lines]   message of a result made   *)
(*    by hand                                                                   *)
EXTENDS Report, VT
VARIABLES sid, l
tvars == <<rvars, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ RInit
C == [out |-> E.out, desc |-> E.desc, tags |-> E.tags, ex |-> E.ex]
TRun == At("run") /\ Start
TCase == At("case") /\ Case(C)
TCases == At("cases") /\ CaseTimes(C, E.k)
TTry == At("try") /\ Try(C)
SameDist == /\ Len(E.dist) = Cardinality(DOMAIN dist)
            /\ {<<E.dist[i][1], E.dist[i][2]>> : i \in 1..Len(E.dist)} = {<<t, dist[t]>> : t \in DOMAIN dist}
TRes == At("res") /\ E.n = nS /\
        CASE E.type = "ok" -> EndOk /\ SameDist
          [] E.type = "gaveup" -> EndGaveUp /\ E.desc = best.desc
          [] E.type = "failed" -> EndFailed /\ E.desc = best.desc /\ E.ex = best.ex /\ E.k = nShr
          [] OTHER -> FALSE
TOver == At("over") /\ CASE E.type = "ok" -> EndOk [] E.type = "gaveup" -> EndGaveUp [] OTHER -> EndFailed
Message(t, n, d, k, ex, desc, text, lines) ==
  CASE t = "ok" -> LinesOk(d, n, lines) /\ text = PassText(n, d, lines)
    [] t = "gaveup" -> text = GaveUpText(n, desc)
    [] t = "failed" -> text = FailText(n, k, ex, desc)
    [] t = "error" -> text = ErrorText(desc)
    [] OTHER -> FALSE
TText == /\ At("text") /\ phase = "over"
         /\ Message(E.type, nS, dist, nShr, best.ex, best.desc, E.text, E.lines)
         /\ UNCHANGED rvars
TRepro == /\ At("repro") /\ phase = "over" /\ best.out = "F" /\ E.text = FailText(0, nShr, best.ex, best.desc) /\ UNCHANGED rvars
DistOf(ps) == [t \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE p \in {ps[i] : i \in 1..Len(ps)} : p[1] = t)[2]]
TPrint == /\ At("print")
          /\ Message(E.type, E.n, DistOf(E.dist), E.k, E.ex, E.desc, E.text, E.lines)
          /\ UNCHANGED rvars
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<rvars, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TRun \/ TCase \/ TCases \/ TTry \/ TRes \/ TOver \/ TText \/ TRepro \/ TPrint \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
