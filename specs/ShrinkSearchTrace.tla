--------------------------- MODULE ShrinkSearchTrace ---------------------------
(* Events: run [id]  a node of the tree was evaluated                          *)
(*         tried [id, acc]  the observer was told about a shrink               *)
(*         res [path, desc, cex]  result of the whole test                     *)
(*         shr [path, id]  result of the shrink phase alone                    *)
(*         walk [path, id]  where a path leads (-1: nowhere)                   *)
(*         lmin [id, n]  local minimum search: minimum and number of steps     *)
EXTENDS ShrinkSearch, VT
VARIABLES sid, l
tvars == <<kvars, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid

Init0 == /\ sid \in 1..Len(Scenarios) /\ l = 1
         /\ StartWith(Scenarios[sid].cfg.tree, Scenarios[sid].cfg.mode)

Tried == Cur.c[idx + 1]
TRun == /\ At("run")
        /\ \/ RunOriginal /\ E.id = tree.id
           \/ RunShrink /\ E.id = Cur.c[idx + 1].id
           \/ \* the descent ends without an event of its own
              LET done == phase = "descend" /\ ~pend /\ idx >= Len(Cur.c)
              IN /\ phase = "final" \/ (done /\ mode # "shrink")
                 /\ E.id = Cur.id
                 /\ phase' = "done"
                 /\ UNCHANGED <<tree, mode, path, idx, pend>>
TTried == /\ At("tried") /\ pend /\ E.id = Tried.id
          /\ IF E.acc THEN Accept ELSE Reject
(* the predicate based local minimum search has no observer: judged silently   *)
TJudge == /\ At("judge") /\ pend /\ E.id = Tried.id /\ E.pred = (Tried.o = "F") /\ (Accept \/ Reject)
TRes == /\ At("res") /\ phase = "done"
        /\ E.path = path /\ E.desc = Cur.desc /\ E.cex = <<<<"node", Cur.desc>>>>
        /\ UNCHANGED kvars
TShr == /\ At("shr") /\ Exhausted /\ E.path = path /\ E.id = Cur.id
TLmin == /\ At("lmin") /\ phase' = "done" /\ phase = "descend" /\ ~pend /\ idx >= Len(Cur.c)
         /\ E.id = Cur.id /\ E.n = Len(path)
         /\ UNCHANGED <<tree, mode, path, idx, pend>>
TWalk == /\ At("walk")
         /\ E.id = IF PathExists(tree, E.path) THEN NodeAt(tree, E.path).id ELSE -1
         /\ UNCHANGED kvars
TEnd == l = Len(S.ev) + 1 /\ phase = "done" /\ l' = l + 1 /\ UNCHANGED <<kvars, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TRun \/ TTried \/ TJudge \/ TRes \/ TShr \/ TLmin \/ TWalk \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
