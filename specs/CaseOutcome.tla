------------------------------ MODULE CaseOutcome ------------------------------
(* One test case: what is reported, logged and tagged while it runs, and how   *)
(* that becomes its outcome (property C05).                                    *)
EXTENDS Naturals, Integers, Sequences

CONSTANTS Msgs, MaxOps

VARIABLES typ,    \* "S" | "F" | "D": the outcome so far
          msgs,   \* messages that describe it
          log,    \* logged text
          tags,   \* tags, in order
          ended,  \* the case is over
          hist    \* everything reported, in order (model checking only)
cvars == <<typ, msgs, log, tags, ended, hist>>

Start == typ = "S" /\ msgs = <<>> /\ log = "" /\ tags = <<>> /\ ended = FALSE /\ hist = <<>>

(* the effect of one reported result *)
After(t, m, r) ==
  CASE r[1] = "D" -> IF t = "D" THEN <<t, m>> ELSE <<"D", <<r[2]>>>>
    [] r[1] = "F" -> IF t = "D" THEN <<t, m>>
                     ELSE <<"F", IF t = "F" THEN Append(m, r[2]) ELSE <<r[2]>>>>
    [] r[1] = "S" -> IF t = "S" THEN <<"S", <<r[2]>>>> ELSE <<t, m>>

Report(r) ==
  /\ ~ended
  /\ typ' = After(typ, msgs, r)[1] /\ msgs' = After(typ, msgs, r)[2]
  /\ hist' = Append(hist, r)
  /\ UNCHANGED <<log, tags, ended>>
Log(s) == ~ended /\ log' = log \o s /\ UNCHANGED <<typ, msgs, tags, ended, hist>>
Tag(ts) == ~ended /\ tags' = tags \o ts /\ UNCHANGED <<typ, msgs, log, ended, hist>>
(* the case ends with one last report: its return value or what it threw       *)
End(r) ==
  /\ ~ended /\ ended' = TRUE
  /\ typ' = After(typ, msgs, r)[1] /\ msgs' = After(typ, msgs, r)[2]
  /\ hist' = Append(hist, r)
  /\ UNCHANGED <<log, tags>>

(* How a case can end. kind: what the body did; s: the text involved           *)
EndReport(kind, s) ==
  CASE kind = "return void"      -> <<"S", "no exceptions thrown">>
    [] kind = "return true"      -> <<"S", "Returned true">>
    [] kind = "return false"     -> <<"F", "Returned false">>
    [] kind = "return string"    -> IF s = "" THEN <<"S", "Returned empty string">> ELSE <<"F", s>>
    [] kind = "result S"         -> <<"S", s>>     \* a CaseResult returned or thrown
    [] kind = "result F"         -> <<"F", s>>
    [] kind = "result D"         -> <<"D", s>>
    [] kind = "generation fails" -> <<"D", "Generation failed with message:\n" \o s>>
    [] kind = "throw exception"  -> <<"F", "Exception thrown with message:\n" \o s>>
    [] kind = "throw string"     -> <<"F", s>>
    [] kind = "throw other"      -> <<"F", "Unknown object thrown">>

RECURSIVE Join(_)
Join(ms) == IF ms = <<>> THEN "" ELSE IF Len(ms) = 1 THEN ms[1] ELSE ms[1] \o "\n\n" \o Join(Tail(ms))
Description == Join(msgs) \o (IF log = "" THEN "" ELSE "\n\nLog:\n" \o log)

Kinds == {"return void", "return true", "return false", "return string", "result S", "result F",
          "result D", "generation fails", "throw exception", "throw string", "throw other"}
Next == \/ Len(hist) < MaxOps /\ \E t \in {"S", "F", "D"}, m \in Msgs : Report(<<t, m>>)
        \/ Len(log) < 1 /\ Log("l")
        \/ Len(tags) < 1 /\ Tag(<<"t">>)
        \/ \E k \in Kinds, m \in Msgs : End(EndReport(k, m))
        \/ ended /\ UNCHANGED cvars
Spec == Start /\ [][Next]_cvars

-------------------------------------------------------------------------------
(* declarative reading of the property, independent of the automaton           *)
Sel(h, t) == SelectSeq(h, LAMBDA r : r[1] = t)
MsgsOf(h) == [i \in 1..Len(h) |-> h[i][2]]
Declared ==
  LET ds == Sel(hist, "D")
      fs == Sel(hist, "F")
      ss == Sel(hist, "S")
  IN IF ds # <<>> THEN typ = "D" /\ msgs = <<ds[1][2]>>
     ELSE IF fs # <<>> THEN typ = "F" /\ msgs = MsgsOf(fs)
     ELSE typ = "S" /\ msgs = (IF ss = <<>> THEN <<>> ELSE <<ss[Len(ss)][2]>>)
EndedReported == ended => hist # <<>>
===============================================================================
