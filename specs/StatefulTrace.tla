----------------------------- MODULE StatefulTrace -----------------------------
(* cfg.mode = "tree": generation and shrinking of a sequence; cfg: pre app size  *)
(*   try [s, r, size, out]  the command generator was run for state s            *)
(*   gen [cmds]             the generator has been called                        *)
(*   node [cmds, kids, more], down [i]                                           *)
(* cfg.mode = "run": operations on a given sequence                              *)
(*   op [op, cmds, runs, res, s]                                                 *)
(*   plain [s, valid, next, after, ran, text, name]                              *)
(* cfg.mode = "check": cases of a property made of state::check                  *)
(*   case [cmds, runs, res, again]                                               *)
(* cfg.mode = "oneof": commands chosen by execOneOf                              *)
(*   pick [k, form, args, kids], end: picks of every kind were made              *)
EXTENDS VT
VARIABLES sid, l, memo, cur, g, seen
tvars == <<sid, l, memo, cur, g, seen>>
S == Scenarios[sid]
C == S.cfg
TRules == [pre |-> C.pre, pf |-> C.pf, app |-> C.app, run |-> C.run]
INSTANCE Stateful WITH rules <- TRules, TryLimit <- 100
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Nothing == [r |-> -1, c |-> <<"none">>]
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ memo = <<>> /\ cur = <<Nothing>> /\ g = GenStart /\ seen = {}
-------------------------------------------------------------------------------
Known(r) == \E i \in 1..Len(memo) : memo[i].r = r
TryRec == [r |-> E.r, s |-> E.s, out |-> E.out]
(* during generation: the current state, a random state not used before          *)
TTry == /\ At("try") /\ E.size = C.size
        /\ Outcome(E.r, E.s) = <<"missing">>
        /\ IF cur = <<Nothing>>
           THEN /\ g.res = "more" /\ Len(g.es) <= C.size
                /\ E.s = g.s /\ ~Known(E.r)
                /\ g' = TLCEval(GenTry(g, E.r, E.out))
           ELSE UNCHANGED g
        /\ memo' = Append(memo, TryRec) /\ UNCHANGED <<cur, seen>>
TGen == /\ At("gen") /\ cur = <<Nothing>>
        /\ IF g.res = "more" THEN Len(g.es) \in 1..(C.size + 1) /\ g.t = 0 /\ cur' = g.es ELSE cur' = Failed(g.res)
        /\ E.cmds = Cmds(cur')
        /\ UNCHANGED <<memo, g, seen>>
TNode == /\ At("node") /\ E.cmds = Cmds(cur)
         /\ LET ks == TLCEval(Shrinks(cur)) IN
            /\ IF E.more THEN Len(E.kids) <= Len(ks) ELSE Len(E.kids) = Len(ks)
            /\ \A j \in 1..Len(E.kids) : E.kids[j] = Cmds(ks[j])
            /\ \A j \in 1..Len(E.kids) : (ValidSequence(E.kids[j]) = TRUE)
         /\ UNCHANGED <<memo, cur, g, seen>>
TDown == At("down") /\ cur' = Shrinks(cur)[E.i] /\ UNCHANGED <<memo, g, seen>>
-------------------------------------------------------------------------------
RECURSIVE Prefix(_, _)
Prefix(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE Head(a) = Head(b) /\ Prefix(Tail(a), Tail(b))
TOp == /\ At("op")
       /\ CASE E.op = "runAll" -> LET R == RunAll(E.cmds) IN E.runs = R.runs /\ E.res = R.res /\ E.s = Init
            [] E.op = "applyAll" -> LET W == ApplyAll(E.cmds) IN
                 E.runs = <<>> /\ E.res = W.res /\ (W.res = "ok" => E.s = W.s)
            [] E.op = "isValidSequence" -> E.runs = <<>> /\ E.s = Init
                 /\ LET A == ApplyAll(E.cmds).res IN
                    E.res = IF A = "ok" THEN "yes" ELSE IF A = "discard" THEN "no" ELSE A
            [] E.op = "isValidCommand" -> E.runs = <<>> /\ E.s = C.at /\ (LET P == PreRes(E.cmds[1], C.at) IN
                 E.res = IF P \in {"yes", "no"} THEN P ELSE Ends(P))
            [] E.op = "nextState" -> E.runs = <<>> /\ E.s = C.at /\ E.next = Apply(E.cmds[1], C.at)
            [] E.op = "show" -> E.text = Shown(E.cmds, 1)
       /\ UNCHANGED <<memo, cur, g, seen>>
TCase == /\ At("case")
         /\ IF E.res = "nogen" THEN E.runs = <<>>
            ELSE /\ (E.first => Len(E.cmds) >= 1) /\ Len(E.cmds) <= C.size + 1 /\ (ValidSequence(E.cmds) = TRUE)
                 /\ LET R == RunAll(E.cmds) IN E.runs = R.runs /\ E.res = IF R.res = "error" THEN "fail" ELSE R.res
         /\ UNCHANGED <<memo, cur, g, seen>>
-------------------------------------------------------------------------------
(* kinds 1..C.kinds; form "args": made from the arguments as they were given     *)
TPick == /\ At("pick") /\ E.k \in 1..C.kinds
         /\ E.form = (IF E.k \in {C.takes[i] : i \in 1..Len(C.takes)} THEN "args" ELSE "none")
         /\ (E.form = "args" => E.args = C.args)
         /\ \A i \in 1..Len(E.kids) : E.kids[i] = E.k            \* shrinking keeps the kind
         /\ seen' = seen \cup {E.k} /\ UNCHANGED <<memo, cur, g>>
(* a command that overrides nothing: always possible, changes nothing, runs nothing, shown by its type *)
TPlain == /\ At("plain") /\ E.valid = TRUE /\ E.next = E.s /\ E.after = E.s /\ E.ran = TRUE /\ E.text = E.name
          /\ UNCHANGED <<memo, cur, g, seen>>
TAll == At("all") /\ seen = 1..C.kinds /\ UNCHANGED <<memo, cur, g, seen>>
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<sid, memo, cur, g, seen>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TTry \/ TGen \/ TNode \/ TDown \/ TOp \/ TCase \/ TPick \/ TPlain \/ TAll \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
