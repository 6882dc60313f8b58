------------------------------ MODULE ImplicitEnv ------------------------------
(* Dynamically scoped parameters (property C06).                                *)
(*                                                                              *)
(* The program is seen as a stack of frames: a "scope" frame hides everything   *)
(* below it, a "bind" frame gives one parameter a value. Reading a parameter    *)
(* finds the innermost binding that is not hidden; if there is none, the scope  *)
(* itself starts holding the default, and what is stored there later lives as   *)
(* long as the scope.                                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLE frames   \* Seq of [k |-> "scope", held |-> Seq of <<param, value>>]
                  \*      or [k |-> "bind", p |-> param, v |-> value]
Scope == [k |-> "scope", held |-> <<>>]
Bind(p, v) == [k |-> "bind", p |-> p, v |-> v]

EnvStart == frames = <<Scope>>    \* the outermost scope: the program itself

Has(h, p) == \E i \in 1..Len(h) : h[i][1] = p
Slot(h, p) == CHOOSE i \in 1..Len(h) : h[i][1] = p
(* index of the frame that decides p: its innermost binding or scope            *)
Decider(f, p) == CHOOSE i \in 1..Len(f) :
                   /\ (f[i].k = "scope" \/ (f[i].k = "bind" /\ f[i].p = p))
                   /\ \A j \in (i + 1)..Len(f) : ~(f[j].k = "scope" \/ (f[j].k = "bind" /\ f[j].p = p))
ValueIn(f, p, default) ==
  LET d == f[Decider(f, p)] IN
    IF d.k = "bind" THEN d.v ELSE IF Has(d.held, p) THEN d.held[Slot(d.held, p)][2] ELSE default
Stored(f, p, v) ==
  LET i == Decider(f, p) d == f[i] IN
    IF d.k = "bind" THEN [f EXCEPT ![i].v = v]
    ELSE IF Has(d.held, p) THEN [f EXCEPT ![i].held[Slot(d.held, p)] = <<p, v>>]
    ELSE [f EXCEPT ![i].held = Append(d.held, <<p, v>>)]

EnterScope == frames' = Append(frames, Scope)
EnterBind(p, v) == frames' = Append(frames, Bind(p, v))
Leave == Len(frames) > 1 /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
Store(p, v) == frames' = Stored(frames, p, v)
===============================================================================
