----------------------------- MODULE RecipeTrace -----------------------------
(* cfg: size; kind "exec" or "prop"; widths, depths, badroot, badchild per site *)
(* run [n]: evaluating node n starts                                            *)
(*   gen [s, r, size]: the generator of site s was called with random state r   *)
(*   pick [v]: the body got value v; failed [s, how]: the pick threw            *)
(* ran [ok, got, example]: the evaluation is over; ok: a value, got: the picks  *)
(*   reported in that value; example: the counterexample                        *)
(* shrinks [n, ids]: the shrinks of node n, new nodes named ids                 *)
EXTENDS Recipe, VT
VARIABLES sid, l,
          nodes,   \* per node: [ings, fixed, ran, all, ok]
          cur,     \* node being evaluated, 0: none
          all,     \* picks made so far in this evaluation
          pend,    \* <<v>>: a value was generated and not yet handed to the body
          rnd      \* random states of the positions, as seen so far
tvars == <<sid, l, nodes, cur, all, pend, rnd>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Node(s) == [ings |-> s.ings, fixed |-> s.fixed, ran |-> FALSE, all |-> <<>>, ok |-> TRUE]
Init0 == /\ sid \in 1..Len(Scenarios) /\ l = 1 /\ cur = 0 /\ all = <<>> /\ pend = <<>> /\ rnd = <<>>
         /\ nodes = <<Node([ings |-> <<>>, fixed |-> 0])>>
Max(a, b) == IF a > b THEN a ELSE b
Count(v) == IF Len(v.p) < S.cfg.depths[v.s] /\ ~(v.p = <<>> /\ S.cfg.badroot[v.s] # "")
            THEN Max(0, S.cfg.widths[v.s] - Len(v.p)) ELSE 0
(* how asking for this value fails, "" if it does not *)
Bad(v) == IF v.p = <<>> THEN S.cfg.badroot[v.s]
          ELSE IF v.p[Len(v.p)] = 2 THEN S.cfg.badchild[v.s] ELSE ""

TRun == /\ At("run") /\ cur = 0 /\ E.n \in 1..Len(nodes)
        /\ cur' = E.n /\ all' = <<>> /\ pend' = <<>> /\ UNCHANGED <<nodes, rnd>>
Pos == Len(all) + 1
Prescribed == cur # 0 /\ Pos <= Len(nodes[cur].ings)
TGen == /\ At("gen") /\ cur # 0 /\ pend = <<>> /\ ~Prescribed
        /\ E.size = S.cfg.size
        /\ IF Pos <= Len(rnd) THEN E.r = rnd[Pos] /\ UNCHANGED rnd
           ELSE /\ \A i \in 1..Len(rnd) : rnd[i] # E.r
                /\ rnd' = Append(rnd, E.r)
        /\ pend' = <<Fresh(E.s, E.r)>> /\ UNCHANGED <<nodes, cur, all>>
Val == IF Prescribed THEN nodes[cur].ings[Pos] ELSE pend[1]
Available == cur # 0 /\ (Prescribed \/ pend # <<>>)
TPick == /\ At("pick") /\ Available /\ Bad(Val) = "" /\ E.v = Val
         /\ all' = Append(all, Val) /\ pend' = <<>> /\ UNCHANGED <<nodes, cur, rnd>>
TFailed == /\ At("failed") /\ Available /\ Bad(Val) = E.how /\ E.how # "" /\ E.s = Val.s
           /\ all' = Append(all, Val) /\ pend' = <<>> /\ UNCHANGED <<nodes, cur, rnd>>
Good(vs) == SelectSeq(vs, LAMBDA v : Bad(v) = "")
(* names of picks: the given one, or the type *)
Entry(i) == LET v == all[i] IN
  CASE Bad(v) = "generation failure" -> <<"Generation failed", "gf">>
    [] Bad(v) = "exception" -> <<"Exception while generating", "ex">>
    [] Bad(v) = "other" -> <<"Unknown exception", "<???>">>
    [] OTHER -> <<S.cfg.names[v.s], S.cfg.open[v.s], v, S.cfg.close[v.s]>>
TRan == /\ At("ran") /\ cur # 0 /\ pend = <<>>
        /\ nodes[cur].ran => (nodes[cur].all = all /\ nodes[cur].ok = E.ok)   \* again: the same
        /\ S.cfg.kind = "prop" => E.ok
        /\ "got" \in DOMAIN E => (E.ok => E.got = Good(all))
        /\ S.cfg.kind = "prop" => /\ Len(E.example) = Len(all)
                                  /\ \A i \in 1..Len(all) : E.example[i] = Entry(i)
        /\ nodes' = [nodes EXCEPT ![cur].ran = TRUE, ![cur].all = all, ![cur].ok = E.ok]
        /\ cur' = 0 /\ UNCHANGED <<all, pend, rnd>>
TShrinks == /\ At("shrinks") /\ cur = 0 /\ nodes[E.n].ran
            /\ LET ss == IF nodes[E.n].ok THEN ShrinksOf(nodes[E.n].all, nodes[E.n].fixed, Count) ELSE <<>> IN
                 /\ Len(E.ids) = Len(ss)
                 /\ E.ids = [i \in 1..Len(ss) |-> Len(nodes) + i]
                 /\ nodes' = nodes \o [i \in 1..Len(ss) |-> Node(ss[i])]
            /\ UNCHANGED <<cur, all, pend, rnd>>
TEnd == l = Len(S.ev) + 1 /\ cur = 0 /\ l' = l + 1 /\ UNCHANGED <<sid, nodes, cur, all, pend, rnd>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TRun \/ TGen \/ TPick \/ TFailed \/ TRan \/ TShrinks \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
