------------------------------ MODULE HandlesTrace ------------------------------
(* op [op, k, i, j, p, r, ok, live, shells]: one operation on slot i (from slot   *)
(*    j), with payload p; r: what came of it; ok: it did not fail; live: pairs   *)
(*    <payload, number of living objects>; shells: living objects without one    *)
(*    (live is left out, n = 0, for operations of other threads)                 *)
(* gone [n]       number of objects alive after the last handle is gone          *)
(* late [a, b]    a shrink tree walked while everything is alive, and after all  *)
(*                that was used to make it is gone                               *)
EXTENDS Handles, VT
VARIABLES sid, l
tvars == <<hvars, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ HInit(6)

LivingOk == ~E.n \/ (/\ {x[1] : x \in {E.live[i] : i \in 1..Len(E.live)}} = Payloads'
                     /\ \A x \in {E.live[i] : i \in 1..Len(E.live)} : Living(x[1])' = x[2]
                     /\ E.shells <= Shells')
IsOp(o) == At("op") /\ E.op = o
(* what a handle that has something gives: its payload; nothing: 0              *)
Gives(k, i) == LET c == At2(k, i) IN IF c.s = "has" THEN c.p ELSE 0
TUse == /\ IsOp("use") /\ At2(E.k, E.i) # None
        /\ (At2(E.k, E.i).s # "moved" => E.r = Gives(E.k, E.i))
        /\ UNCHANGED hvars
(* equal handles                                                                *)
TSame == /\ IsOp("same")
         /\ LET a == At2(E.k, E.i) b == At2(E.k, E.j) IN
            (a.s # "moved" /\ b.s # "moved") => E.r = (IF Gives(E.k, E.i) = Gives(E.k, E.j) /\ (a.s = "has") = (b.s = "has") THEN 1 ELSE 0)
         /\ UNCHANGED hvars
TOp == /\ \/ IsOp("new") /\ New(E.k, E.i, E.p)
          \/ IsOp("empty") /\ NewEmpty(E.k, E.i)
          \/ IsOp("copy") /\ Copy(E.k, E.i, E.j)
          \/ IsOp("move") /\ Move(E.k, E.i, E.j)
          \/ IsOp("cassign") /\ CopyAssign(E.k, E.i, E.j)
          \/ IsOp("massign") /\ MoveAssign(E.k, E.i, E.j)
          \/ IsOp("reset") /\ Reset(E.k, E.i)
          \/ IsOp("set") /\ Set(E.k, E.i, E.p)
          \/ IsOp("setfails") /\ SetFails(E.k, E.i, E.p = 1) /\ ~E.ok
          \/ IsOp("destroy") /\ Destroy(E.k, E.i)
          \/ IsOp("generate") /\ Generate(E.i, E.j)
          \/ IsOp("shrinks") /\ Shrinks(E.i, E.j)
          \/ IsOp("next") /\ NextKid(E.i, E.j) /\ E.r = NextIs(E.i)
          \/ TUse \/ TSame
       /\ (E.op # "setfails" => E.ok)
       /\ LivingOk
TGone == At("gone") /\ E.n = 0 /\ UNCHANGED hvars
TLate == At("late") /\ E.a = E.b /\ Len(E.a) > 0 /\ UNCHANGED hvars
(* rounds in which several threads give up an object at the same time: rounds   *)
(* after which an object is left, wrong values seen, objects used when dead      *)
THandoff == At("handoff") /\ E.left = 0 /\ E.wrong = 0 /\ ~E.bad /\ UNCHANGED hvars
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<hvars, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TOp \/ TGone \/ TLate \/ THandoff \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
