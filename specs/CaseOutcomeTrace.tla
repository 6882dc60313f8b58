--------------------------- MODULE CaseOutcomeTrace ---------------------------
(* Events of one case, in program order:                                       *)
(*   report [t, m], log [s], tag [ts], end [kind, s]                           *)
(*   macro [m, cond, thrown, why, src, at, stopped, t, text]: an RC_ assertion *)
(*     was evaluated with the condition cond (or, for the THROWS forms, with   *)
(*     what was thrown; why: the argument of the unconditional ones) - stopped:*)
(*     it ended the body; text: message of the object it threw; src: its       *)
(*     arguments as written; at: file and line                                 *)
(*   expr [m, vals, kinds, ops, evaluated, operands, ...]: one that was given  *)
(*     an expression, which is captured from the left: the first of vals, then *)
(*     an operator and a value each; evaluated: the operands that C++ evaluated*)
(*   outcome [t, desc, tags]: what the framework made of the case              *)
(*   search [t, ...]: outcome seen by a whole check run on this body           *)
EXTENDS CaseOutcome, VT, TLC
VARIABLES sid, l
tvars == <<cvars, sid, l>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ Start

NoHist == hist' = <<>>
TReport == At("report") /\ ~ended
           /\ typ' = After(typ, msgs, <<E.t, E.m>>)[1] /\ msgs' = After(typ, msgs, <<E.t, E.m>>)[2]
           /\ NoHist /\ UNCHANGED <<log, tags, ended>>
TLog == At("log") /\ Log(E.s)
TTag == At("tag") /\ Tag(E.ts)
TEndCase == /\ At("end") /\ ~ended /\ ended' = TRUE
            /\ LET r == EndReport(E.kind, E.s) IN
                 typ' = After(typ, msgs, r)[1] /\ msgs' = After(typ, msgs, r)[2]
            /\ NoHist /\ UNCHANGED <<log, tags>>
(* which outcome, if any, a macro has: "" means the body goes on *)
MacroResult(m, cond, thrown) ==
  CASE m = "RC_ASSERT"           -> IF cond THEN "" ELSE "F"
    [] m = "RC_ASSERT_FALSE"     -> IF cond THEN "F" ELSE ""
    [] m = "RC_ASSERT_THROWS"    -> IF thrown # "none" THEN "" ELSE "F"
    [] m = "RC_ASSERT_THROWS_AS" -> IF thrown \in {"exact", "derived"} THEN "" ELSE "F"
    [] m = "RC_FAIL"             -> "F"
    [] m = "RC_SUCCEED_IF"       -> IF cond THEN "S" ELSE ""
    [] m = "RC_SUCCEED"          -> "S"
    [] m = "RC_PRE"              -> IF cond THEN "" ELSE "D"
    [] m = "RC_DISCARD"          -> "D"
(* the message: place, macro as written, and what there is to say about it     *)
Message(extra) == E.at \o ":\n" \o E.m \o "(" \o E.src \o ")" \o (IF extra = "" THEN "" ELSE "\n\n" \o extra)
ExpandsTo(x) == "Expands to:\n" \o x
Extra ==
  CASE E.m = "RC_ASSERT"           -> ExpandsTo("false == true")
    [] E.m = "RC_ASSERT_FALSE"     -> ExpandsTo("true")
    [] E.m = "RC_SUCCEED_IF"       -> ExpandsTo("3 > 2")
    [] E.m = "RC_PRE"              -> ExpandsTo("false")
    [] E.m = "RC_ASSERT_THROWS"    -> "No exception was thrown."
    [] E.m = "RC_ASSERT_THROWS_AS" -> IF E.thrown = "none" THEN "No exception was thrown."
                                      ELSE "Thrown exception did not match Base."
    [] OTHER                       -> IF E.why = "-" THEN "" ELSE E.why
(* what a macro does to the case: nothing, or it ends it with its message      *)
Stops(r, extra) ==
  IF r = "" THEN E.stopped = FALSE /\ UNCHANGED cvars
  ELSE /\ E.stopped = TRUE /\ E.t = r /\ E.text = Message(extra)
       /\ ended' = TRUE
       /\ typ' = After(typ, msgs, <<r, E.text>>)[1]
       /\ msgs' = After(typ, msgs, <<r, E.text>>)[2]
       /\ NoHist /\ UNCHANGED <<log, tags>>
TMacro == /\ At("macro") /\ ~ended
          /\ Stops(MacroResult(E.m, E.cond, E.thrown), Extra)

-------------------------------------------------------------------------------
(* captured expressions over small numbers; truth values count as 0 and 1      *)
B(x) == IF x THEN 1 ELSE 0
RECURSIVE Pow2(_), BitOp(_, _, _)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
BitOp(o, x, y) ==
  IF x = 0 /\ y = 0 THEN 0
  ELSE (CASE o = "&" -> B(x % 2 = 1 /\ y % 2 = 1)
          [] o = "|" -> B(x % 2 = 1 \/ y % 2 = 1)
          [] o = "^" -> B(x % 2 # y % 2)) + 2 * BitOp(o, x \div 2, y \div 2)
Apply(o, x, y) ==
  CASE o = "*"  -> x * y
    [] o = "/"  -> x \div y
    [] o = "%"  -> x % y
    [] o = "+"  -> x + y
    [] o = "-"  -> x - y
    [] o = "<<" -> x * Pow2(y)
    [] o = ">>" -> x \div Pow2(y)
    [] o = "<"  -> B(x < y)
    [] o = ">"  -> B(x > y)
    [] o = ">=" -> B(x >= y)
    [] o = "<=" -> B(x <= y)
    [] o = "==" -> B(x = y)
    [] o = "!=" -> B(x # y)
    [] o = "&&" -> B(x # 0 /\ y # 0)
    [] o = "||" -> B(x # 0 \/ y # 0)
    [] OTHER    -> BitOp(o, x, y)
Operand(i) == IF E.kinds[i] = "b" THEN (IF E.vals[i] # 0 THEN "true" ELSE "false") ELSE ToString(E.vals[i])
RECURSIVE ValueTo(_), ShownTo(_)
ValueTo(i) == IF i = 1 THEN E.vals[1] ELSE Apply(E.ops[i - 1], ValueTo(i - 1), E.vals[i])
ShownTo(i) == IF i = 1 THEN Operand(1) ELSE ShownTo(i - 1) \o " " \o E.ops[i - 1] \o " " \o Operand(i)
(* no operand is evaluated twice, and none is left out unless C++ itself does  *)
OnceEach ==
  /\ \A i, j \in 1..Len(E.evaluated) : i # j => E.evaluated[i] # E.evaluated[j]
  /\ \/ Len(E.evaluated) = E.operands
     \/ E.form \in {"b || (b && b)", "n && (n && n)", "n && (n || n)", "(n && n) == n", "(n || n) == n"}
TExpr == /\ At("expr") /\ ~ended
         /\ Len(E.kinds) = Len(E.vals) /\ Len(E.ops) = Len(E.vals) - 1 /\ E.src # ""
         /\ (OnceEach) = TRUE
         /\ Stops(MacroResult(E.m, ValueTo(Len(E.vals)) # 0, "none"), ExpandsTo(ShownTo(Len(E.vals))))
TOutcome == /\ At("outcome") /\ ended
            /\ E.t = typ /\ E.desc = Description /\ E.tags = tags
            /\ UNCHANGED cvars
(* the same body as the only case of a run: verdict and description            *)
TSearch == /\ At("search") /\ ended
           /\ CASE typ = "S" -> E.t = "ok" /\ E.n = 1
                [] typ = "F" -> E.t = "failed" /\ E.n = 0 /\ E.desc = Description
                [] typ = "D" -> E.t = "gaveup" /\ E.n = 0 /\ E.desc = Description
           /\ UNCHANGED cvars
TEnd == l = Len(S.ev) + 1 /\ ended /\ l' = l + 1 /\ UNCHANGED <<cvars, sid>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TReport \/ TLog \/ TTag \/ TEndCase \/ TMacro \/ TExpr \/ TOutcome \/ TSearch \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
