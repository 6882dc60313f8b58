------------------------------- MODULE ReproTrace -------------------------------
(* Events:                                                                     *)
(*  run   [key, log, res]  a complete run of the property named key, with      *)
(*        everything that was observed during it                               *)
(*  check [id, key, map, ns, res, ran]  a check under reproduction data; map   *)
(*        lists <<id, key of the run the data came from>>                      *)
(*  tree  [tree, path, res]  reproducing an explicit tree at a path            *)
(* memo: what the first run of each key gave - any later one must be equal.    *)
EXTENDS Repro, VT
VARIABLES sid, l, memo
tvars == <<rvars, sid, l, memo>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED <<sid, rvars>>

Init0 == /\ sid \in 1..Len(Scenarios) /\ l = 1 /\ memo = [k \in {} |-> 0]
         /\ prop = 0 /\ map = 0 /\ last = NoResult

Rec == [log |-> E.log, res |-> E.res]
TRun == /\ At("run")
        /\ IF E.key \in DOMAIN memo
           THEN memo[E.key] = Rec /\ UNCHANGED memo
           ELSE memo' = [k \in DOMAIN memo \cup {E.key} |-> IF k \in DOMAIN memo THEN memo[k] ELSE Rec]

MapDom == {E.map[i][1] : i \in 1..Len(E.map)}
KeyFor(id) == E.map[CHOOSE i \in 1..Len(E.map) : E.map[i][1] = id][2]
TCheck ==
  /\ At("check") /\ UNCHANGED memo
  /\ IF MapDom = {}
     THEN E.res = memo[E.key].res /\ E.stops = (IF E.res.type = "failed" THEN 1 ELSE 0)
     ELSE IF E.id = "" \/ E.id \notin MapDom
     THEN E.res.type = "ok" /\ E.res.n = 0 /\ E.ran = 0 /\ E.stops = 0 /\ Len(E.res.dist) = 0
     ELSE LET f == memo[KeyFor(E.id)].res
              want == IF E.ns THEN memo[KeyFor(E.id) \o "/noshrink"].res ELSE f
          IN /\ f.type = "failed"
             /\ E.res.type = "failed"
             /\ E.res.n = 0
             /\ E.res.desc = want.desc /\ E.res.cex = want.cex
             /\ E.res.size = f.size /\ E.res.path = want.path
             /\ E.res.rnd = f.rnd
             /\ E.ran = 1 /\ E.stops = 1
(* the printed/encoded form reproduces the same data                           *)
TTree ==
  /\ At("tree") /\ UNCHANGED memo
  /\ LET r == ReproOf([x \in {1} |-> S.cfg.tree], [rnd |-> 1, path |-> E.path], E.ns)
     IN /\ E.res.type = r.type
        (* the debugger hook: before the node is run for the last time          *)
        /\ E.stops = (IF PathExists(S.cfg.tree, IF E.ns THEN <<>> ELSE E.path) THEN 1 ELSE 0)
        /\ E.stops = 1 => LET d == NodeAt(S.cfg.tree, IF E.ns THEN <<>> ELSE E.path).desc
                         IN Len(E.after) > 0 /\ \A i \in 1..Len(E.after) : E.after[i] = d
        /\ r.type = "failed" => E.res.desc = r.node.desc /\ E.res.path = r.path
                                /\ E.res.cex = <<<<"node", r.node.desc>>>>
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<rvars, sid, memo>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TRun \/ TCheck \/ TTree \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
