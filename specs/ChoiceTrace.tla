------------------------------ MODULE ChoiceTrace -----------------------------
(* own [w, sum, own]      small weights: sum and alternative of every draw       *)
(* lookup [w, sum, d, i]  wide weights: alternative of one draw                  *)
(* pick [how, w | n, size, word, res, i, calls, csize, shr]                      *)
(*   a generator chose: word is what was drawn; the alternative, the generators  *)
(*   that ran for it and the size they got, the alternatives it shrinks to       *)
(* Anything else that happens is an event "other", which has no action.          *)
EXTENDS Choice, VT
VARIABLES sid, l
tvars == <<cvars, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED <<sid, cvars>>
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ CInit(<<>>)
OwnOk == LET t == Total(E.w) IN
         /\ E.sum = t /\ Len(E.own) = t
         /\ \A d \in 0..(t - 1) : E.own[d + 1] \in 0..(Len(E.w) - 1) /\ Owns(E.w, E.own[d + 1] + 1, d)
TOwn == At("own") /\ (OwnOk = TRUE)
TLookup == At("lookup") /\ E.sum = Total64(E.w, Len(E.w)) /\ E.i = Owner64(E.w, E.d)
Index(i) == FromNat(i)
Earlier == \A j \in 1..Len(E.shr) : E.shr[j] < E.i /\ E.shr[j] >= 0
PickOk ==
  CASE E.how = "weighted" -> IF Total64(E.w, Len(E.w)) = Zero64 THEN E.res = "fail"
                             ELSE E.res = "val" /\ E.i = WeightedPick(E.w, E.word) /\ E.shr = <<>>
    [] E.how = "equal" -> IF E.n = 0 THEN E.res = "fail" ELSE E.res = "val" /\ Index(E.i) = EqualPick(E.n, E.word) /\ E.shr = <<>>
    [] OTHER -> IF E.n = 0 THEN E.res = "fail"
                ELSE E.res = "val" /\ Index(E.i) = SizedPick(E.n, E.size, E.word) /\ Earlier /\ (E.i > 0 => Len(E.shr) > 0)
(* only the chosen generator runs, with the size of the case                    *)
CallsOk == E.gens => IF E.res = "val" THEN E.calls = <<E.i>> /\ E.csize = E.size ELSE E.calls = <<>>
TPick == At("pick") /\ ((PickOk /\ CallsOk) = TRUE)
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<cvars, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TOwn \/ TLookup \/ TPick \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
