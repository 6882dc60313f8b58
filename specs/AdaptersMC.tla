------------------------------- MODULE AdaptersMC -------------------------------
EXTENDS Adapters
CONSTANTS Ms, Ratio, Tries, MaxTests
VARIABLES did,     \* tests begun in this process
          told,    \* name -> [parts, pass, v]: what the framework was told at the end
          runs     \* bodies run in this test
mvars == <<avars, did, told, runs>>
Kinds == {"plain", "fixture", "typed", "made", "ordinary"}
Names == 1..MaxTests
T(n, k) == [name |-> ToString(n), kind |-> k, id |-> IF n = 1 THEN "" ELSE "s/" \o ToString(n), desc |-> ToString(n)]
Cases == {[out |-> o, desc |-> "x", tags |-> IF o = "S" THEN <<"a">> ELSE <<>>, ex |-> <<>>] : o \in {"S", "D", "F"}}
Init == AInit /\ did = {} /\ told = <<>> /\ runs = 0
MBegin == \E n \in {Cardinality(did) + 1} \cap Names, k \in Kinds :
            /\ (again => (ToString(n) \in DOMAIN told /\ told[ToString(n)].kind = k))
            /\ Begin(T(n, k)) /\ did' = did \cup {n} /\ runs' = 0 /\ UNCHANGED told
MMake == Make(Len(fix) + 1) /\ UNCHANGED <<did, told, runs>>
Inner == fix[Len(fix)].id
MStage == fix # <<>> /\ (SetUp(Inner) \/ TearDown(Inner) \/ Unmake(Inner)) /\ UNCHANGED <<did, told, runs>>
MBody == /\ runs < Tries /\ test.kind # "ordinary" /\ runs' = runs + 1 /\ UNCHANGED <<did, told>>
         /\ \E c \in Cases : Run(c, IF Fixed /\ fix # <<>> THEN Inner ELSE 0, Ms, Ratio, TRUE)
MEnd == \E pass \in BOOLEAN :
          /\ End(Ms, Ratio, pass, nShr)
          /\ told' = [n \in DOMAIN told \cup {test.name} |->
               IF n # test.name THEN told[n]
               ELSE [pass |-> pass, kind |-> test.kind, again |-> again, runs |-> runs, nS |-> nS, nD |-> nD, out |-> best.out]]
          /\ UNCHANGED <<did, runs>>
MAgain == Again /\ did' = {} /\ UNCHANGED <<told, runs>>
Next == MBegin \/ MMake \/ MStage \/ MBody \/ MEnd \/ MAgain
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
-------------------------------------------------------------------------------
(* the framework hears of a failure exactly if the property did not pass           *)
Right == \A n \in DOMAIN told : LET r == told[n] IN
  ~r.again /\ r.kind # "ordinary" => (r.pass <=> r.out # "F" /\ r.nS = Ms)
(* ... of a reproduced one exactly if it has an id                                 *)
Repro == \A n \in DOMAIN told : told[n].again => told[n].pass = (n \notin DOMAIN failed \/ failed[n].id = "")
Skips == \A n \in DOMAIN told : told[n].again /\ told[n].pass => told[n].runs = 0
(* nothing is left of a test                                                       *)
Clean == test = NoTest => fix = <<>>
Nested == Len(fix) <= 2
Fresh == \A i \in 1..Len(fix) : fix[i].id = i
=================================================================================
