---------------------------- MODULE ImplicitEnvMC ----------------------------
(* The mechanism the library uses (one stack of bindings per parameter, each    *)
(* binding marked with the number of scopes around it, and per scope a list of  *)
(* parameters to pop when it is left) against the frames of ImplicitEnv.        *)
EXTENDS ImplicitEnv
CONSTANTS Params, Values, MaxDepth, Default
VARIABLES stk,    \* per parameter: Seq of <<value, level>>
          scopes  \* Seq of Seq of params: what each scope pops when left
mvars == <<frames, stk, scopes>>

Init == EnvStart /\ stk = [p \in Params |-> <<>>] /\ scopes = <<>>
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
MScope == Len(frames) < MaxDepth /\ EnterScope /\ scopes' = Append(scopes, <<>>) /\ UNCHANGED stk
MBind(p, v) == /\ Len(frames) < MaxDepth /\ EnterBind(p, v)
               /\ stk' = [stk EXCEPT ![p] = Append(@, <<v, Len(scopes)>>)] /\ UNCHANGED scopes
RECURSIVE PopAll(_, _)
PopAll(s, ps) == IF ps = <<>> THEN s ELSE PopAll([s EXCEPT ![Head(ps)] = Pop(@)], Tail(ps))
MLeave == /\ Leave
          /\ IF Top(frames).k = "scope"
             THEN stk' = PopAll(stk, Top(scopes)) /\ scopes' = Pop(scopes)
             ELSE stk' = [stk EXCEPT ![Top(frames).p] = Pop(@)] /\ UNCHANGED scopes
NeedsDefault(p) == stk[p] = <<>> \/ Top(stk[p])[2] < Len(scopes)
(* value(): materialises the default, then may be assigned through              *)
MStore(p, v) ==
  /\ Store(p, v)
  /\ IF NeedsDefault(p)
     THEN /\ stk' = [stk EXCEPT ![p] = Append(@, <<v, Len(scopes)>>)]
          /\ scopes' = IF scopes = <<>> THEN scopes ELSE [scopes EXCEPT ![Len(scopes)] = Append(@, p)]
     ELSE stk' = [stk EXCEPT ![p][Len(stk[p])][1] = v] /\ UNCHANGED scopes
MNext == MScope \/ MLeave \/ \E p \in Params, v \in Values : MBind(p, v) \/ MStore(p, v)
Spec == Init /\ [][MNext]_mvars
MechanismValue(p) == IF NeedsDefault(p) THEN Default ELSE Top(stk[p])[1]
(* every parameter always reads the same in both                                *)
SameValues == \A p \in Params : MechanismValue(p) = ValueIn(frames, p, Default)
(* a read that materialises the default never happens twice for one scope       *)
NothingLeft == Len(frames) = 1 => \A p \in Params : Len(stk[p]) <= 1
===============================================================================
