------------------------------- MODULE ConfigMC -------------------------------
(* Any text over a few characters, read by the machine: the reader is a         *)
(* function of the text alone; what was read, printed with either quote and     *)
(* read again, is the same; later pairs only add or replace. And for every      *)
(* configuration of a family: both printed forms read back.                     *)
EXTENDS Config
CONSTANTS Chars, MaxLen
VARIABLES text, r, conf
vars == <<text, r, conf>>
None == [none |-> TRUE]
SeedVals == {Zero64, One64, Max64, <<0, 0, 0, 32768>>, <<57920, 1, 2, 3>>}
IntVals == {FromNat(0), FromNat(7), FromNat(10), FromNat(100), MaxInt}
Rnd(n) == [key |-> <<Zero64, Max64, One64, FromNat(n)>>, bits |-> FromNat(n), counter |-> FromNat(n * 100), bitsi |-> 9]
RepVals == {<<>>, <<[k |-> <<>>, v |-> [rnd |-> Rnd(0), size |-> Zero64, path |-> <<>>]]>>,
            <<[k |-> <<97, 61, 39>>, v |-> [rnd |-> Rnd(3), size |-> FromNat(99), path |-> <<One64, Max64>>]],
              [k |-> <<98>>, v |-> [rnd |-> Rnd(1), size |-> Zero64, path |-> <<>>]]>>}
Init == text = <<>> /\ r = Reader0 /\ conf = None
(* in two steps, so that the work is shared among the workers                   *)
Choose1 == /\ text = <<>> /\ conf = None
           /\ \E s \in SeedVals, i \in IntVals : conf' = [none |-> TRUE, s |-> s, i |-> i]
           /\ UNCHANGED <<text, r>>
Choose2 == /\ "s" \in DOMAIN conf
           /\ conf' \in [seed : {conf.s}, success : {conf.i}, size : {FromNat(0), Hundred, MaxInt}, ratio : {FromNat(0), FromNat(10), MaxInt},
                          noshrink : BOOLEAN, progress : BOOLEAN, shrinking : BOOLEAN, rep : RepVals]
           /\ UNCHANGED <<text, r>>
Read == /\ conf = None /\ Len(text) < MaxLen
        /\ \E c \in Chars : text' = Append(text, c) /\ r' = Step(r, c)
        /\ UNCHANGED conf
Next == Choose1 \/ Choose2 \/ Read
Spec == Init /\ [][Next]_vars
Machine == conf = None => Finish(r) = Parse(text)
NoEmptyKey == ~Has(r.m, <<>>)
Unique == \A i, j \in 1..Len(r.m) : r.m[i][1] = r.m[j][1] => i = j
RoundTrip == \A q \in Quotes : LET p == Parse(PrintMap(r.m, q)) IN p.ok /\ SetOf(p.m) = SetOf(r.m) /\ Len(p.m) = Len(r.m)
(* two texts one after the other: the second overrides the first                *)
Rest == <<120, 61, 49>>
Override == conf = None /\ r.ph = "key0" => LET p == Parse(text \o Rest) IN p.ok /\ p.m = Put(r.m, <<120>>, <<49>>)
(* a text is refused only for an open quote or a missing key, for ever for the latter *)
Refused == conf = None /\ r.ph = "bad" => ~Parse(text \o Rest).ok
Confs == "seed" \in DOMAIN conf =>
  /\ \A m \in {Full(conf), Minimal(conf)} :
       /\ LET p == Parse(PrintMap(m, 39)) IN p.ok /\ AppliedIs(p.m, Default, conf)
       /\ Wrong(m) = {} /\ Doubtful(m) = {}
  /\ Known(Full(conf)) = Keys
===============================================================================
