------------------------------ MODULE SearchTrace ------------------------------
(* Recorded runs against Search. Events:                                       *)
(*   gen  [size]        the generator of the property was invoked              *)
(*   many [out,sizes]   a stretch of cases, generated and finished alike       *)
(*   fin  [out]         the observer was told the outcome of a case            *)
(*   res  [type,n,desc] the result of the run                                  *)
(* CheckSizes selects whether the recorded sizes are compared (C02) or left    *)
(* to the schedule's own property (C01).                                       *)
EXTENDS Search, VT
CONSTANT CheckSizes
VARIABLES sid, l, lastDesc, gsize
tvars == <<svars, sid, l, lastDesc, gsize>>

S == Scenarios[sid]
Init0 == /\ sid \in 1..Len(Scenarios) /\ l = 1 /\ lastDesc = "" /\ gsize = -1
         /\ StartWith(Scenarios[sid].cfg.par)

At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
E == S.ev[l]

TGen == /\ At("gen") /\ Generate
        /\ CheckSizes => E.size = size'
        /\ gsize' = E.size
        /\ UNCHANGED lastDesc
TFin == /\ At("fin")
        /\ CASE E.out = "S" -> CaseSuccess
             [] E.out = "F" -> CaseFailure
             [] E.out = "D" -> CaseDiscard
             [] OTHER -> FALSE
        /\ hist' = <<>>
        /\ lastDesc' = E.desc /\ UNCHANGED gsize
(* a stretch of cases with the same outcome: the steps Generate, CaseSuccess    *)
(* (or CaseDiscard) repeated; no step on the way may have ended the run, hence  *)
(* only the last discard may be the one too many                                *)
TMany == /\ At("many") /\ phase = "search" /\ Len(E.sizes) >= 1
         /\ LET n == Len(E.sizes) IN
            /\ CASE E.out = "S" ->
                      /\ nS + n <= par.ms
                      /\ CheckSizes => \A j \in 1..n :
                           E.sizes[j] = SizeFor(par, nS + j - 1, IF j = 1 THEN recent ELSE 0)
                      /\ nS' = nS + n /\ recent' = 0 /\ phase' = "search" /\ UNCHANGED nD
                 [] E.out = "D" ->
                      /\ nS < par.ms /\ ~ TooMany(par, nD + n - 1)
                      /\ CheckSizes => \A j \in 1..n :
                           E.sizes[j] = SizeFor(par, nS, recent + j - 1)
                      /\ nD' = nD + n /\ recent' = recent + n /\ UNCHANGED nS
                      /\ phase' = IF TooMany(par, nD + n) THEN "gaveup" ELSE "search"
                 [] OTHER -> FALSE
            /\ size' = E.sizes[n] /\ gsize' = E.sizes[n]
         /\ lastDesc' = E.desc /\ UNCHANGED <<par, hist>>
TFinish == Finish
(* the result event: "ok" needs the silent step Finish first, composed here *)
TRes ==
  /\ At("res")
  /\ \/ /\ E.type = "ok" /\ Finish /\ E.n = nS
     \/ /\ E.type = "failed" /\ phase = "failed" /\ E.n = nS /\ E.desc = lastDesc
        /\ CheckSizes => (E.size = gsize /\ E.size = size)
        /\ E.rnd = TRUE                  \* the failing case's own random state
        /\ UNCHANGED svars
     \/ /\ E.type = "gaveup" /\ phase = "gaveup" /\ E.n = nS /\ E.desc = lastDesc
        /\ UNCHANGED svars
  /\ UNCHANGED <<lastDesc, gsize>>
TEnd == l = Len(S.ev) + 1 /\ Stopped /\ l' = l + 1 /\ UNCHANGED <<svars, sid, lastDesc, gsize>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars

TNext == TGen \/ TMany \/ TFin \/ TRes \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
TInv == nS \in 0..par.ms /\ nD >= recent
===============================================================================
