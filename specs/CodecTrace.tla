------------------------------ MODULE CodecTrace ------------------------------
(* enc [ty, w, v, out, eq]   the value was encoded; eq: what came back equalled *)
(*                           and behaved like the original                      *)
(* dec [ty, w, n, in, ok, used, v]  the bytes were decoded: number of bytes     *)
(*                           consumed and value (rnd, rep, map: encoded again)  *)
(* b64e [in, out]  b64d [in, ok, out]                                           *)
(* mtext [v, out]  a map as text     textm [in, ok, v]  text as a map           *)
(* Any outcome but a value and the documented error is an event "other", which  *)
(* has no action.                                                               *)
EXTENDS Codec, VT
VARIABLES sid, l
tvars == <<sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1

SetOf(q) == {q[j] : j \in 1..Len(q)}
SameMap(d, v) == d.ok /\ d.c /\ Len(d.v) = Len(v) /\ SetOf(d.v) = SetOf(v)
EncOk == IF E.ty = "map" THEN LET d == DecMap(E.out, 1) IN SameMap(d, E.v) /\ d.i = Len(E.out) + 1
         ELSE E.out = Enc(E.ty, E.w, E.v)
TEnc == At("enc") /\ E.eq /\ EncOk
Structured == {"rnd", "rep", "map"}
(* value of a decoder: given encoded again for structured types                 *)
ValueOk(ty, w, given, v) == CASE ty = "map" -> SameMap(DecMap(given, 1), v)
                              [] ty \in {"rnd", "rep"} -> given = Enc(ty, w, v)
                              [] OTHER -> given = v
DecOk == LET d == TLCEval(Dec(E.ty, E.w, E.n, E.in)) IN
         IF ~d.ok THEN ~E.ok
         ELSE IF d.c THEN E.ok /\ E.used = d.i - 1 /\ ValueOk(E.ty, E.w, E.v, d.v)
         ELSE E.ok => E.used <= Len(E.in)
TDec == At("dec") /\ (DecOk = TRUE)
TB64e == At("b64e") /\ E.out = ToText(E.in)
TextOk == LET d == TLCEval(FromText(E.in)) IN
          IF ~d.ok THEN ~E.ok ELSE IF d.c THEN E.ok /\ E.out = d.v ELSE TRUE
TB64d == At("b64d") /\ (TextOk = TRUE)
TMtext == /\ At("mtext")
          /\ LET t == FromText(E.out) IN
             /\ t.ok /\ t.c
             /\ LET d == DecMap(t.v, 1) IN SameMap(d, E.v) /\ d.i = Len(t.v) + 1
TextMapOk == LET t == TLCEval(FromText(E.in)) IN
             IF ~t.ok THEN ~E.ok
             ELSE LET d == TLCEval(DecMap(t.v, 1)) IN
                  IF ~d.ok THEN t.c => ~E.ok
                  ELSE IF t.c /\ d.c /\ d.i = Len(t.v) + 1 THEN E.ok /\ SameMap(DecMap(E.v, 1), d.v)
                  ELSE TRUE
TTextm == At("textm") /\ (TextMapOk = TRUE)
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED sid
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TEnc \/ TDec \/ TB64e \/ TB64d \/ TMtext \/ TTextm \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
