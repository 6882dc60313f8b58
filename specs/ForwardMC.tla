------------------------------- MODULE ForwardMC -------------------------------
EXTENDS Forward
CONSTANTS MaxCases, MaxTold
VARIABLES n, heard, other, repd   \* cases; what each listener was told in order; reported in properties
mvars == <<fvars, n, heard, other, repd>>
Xs == {[t |-> t, s |-> "m", in |-> i, fails |-> f, fatal |-> z, at |-> ""] : t \in {"part", "test"}, i \in BOOLEAN, f \in BOOLEAN, z \in BOOLEAN}
Init == FInit /\ n = 0 /\ heard = <<>> /\ other = <<>> /\ repd = <<>>
MTell == \E x \in Xs, who \in {"it", "before"} :
           /\ Len(heard) + Len(other) < MaxTold /\ (x.t = "test" => ~inside /\ ~x.fails /\ ~x.fatal) /\ (x.fatal => x.fails)
           /\ Tell(who, x, "before")
           /\ heard' = IF who = "it" THEN Append(heard, x) ELSE heard
           /\ other' = IF who = "before" THEN Append(other, x) ELSE other
           /\ repd' = IF Reported(x) THEN Append(repd, x) ELSE repd
           /\ UNCHANGED n
MRest == /\ \/ Check(said) /\ UNCHANGED n
            \/ n < MaxCases /\ Enter(<<>>) /\ n' = n + 1
            \/ \E o \in {"S", "D", "F"} : Leave(o, o, best.out = "F") /\ UNCHANGED n
            \/ (EndOk \/ EndFailed \/ EndGaveUp) /\ ~inside /\ UNCHANGED <<wait, inside, ex, msgs, shown, said, n>>
         /\ UNCHANGED <<heard, other, repd>>
Next == MTell \/ MRest
Spec == Init /\ [][Next]_mvars
IsRep(x) == x.t = "part" /\ x.in /\ ~x.fatal
(* the listener that was there before hears everything but what belongs to a case  *)
Passed == wait = <<>> => other = SelectSeq(heard, LAMBDA x : ~IsRep(x))
Kept == repd = SelectSeq(heard, IsRep)
ShownOk == wait = <<>> => shown = Cardinality({i \in 1..Len(other) : other[i].fails})
(* a case with a reported failure passes never                                     *)
Fails == ~inside /\ best.out = "S" => msgs = <<>>
=================================================================================
