------------------------------- MODULE RecipeMC -------------------------------
(* Searching for a smaller case: run a node, accept any of its shrinks, ... The *)
(* body decides from the picks so far which generator comes next.               *)
EXTENDS Recipe, TLC
CONSTANTS Sites, MaxPicks, Width, Depth
VARIABLES body,   \* which generator follows, by number of shrink steps so far: the program
          ings, fixed, all, phase
mvars == <<body, ings, fixed, all, phase>>
Count(v) == IF Len(v.p) < Depth THEN Width ELSE 0
RECURSIVE Steps(_)
Steps(vs) == IF vs = <<>> THEN 0 ELSE Len(Head(vs).p) + (IF Head(vs).p # <<>> THEN Head(vs).p[1] ELSE 0) + Steps(Tail(vs))
(* the next generator, 0 to stop *)
NextSite(vs) == IF Len(vs) >= MaxPicks THEN 0 ELSE body[Len(vs) + 1][1 + (Steps(vs) % 2)]
Init == /\ body \in [1..MaxPicks -> [1..2 -> {0} \cup Sites]]
        /\ ings = <<>> /\ fixed = 0 /\ all = <<>> /\ phase = "running"
(* one pick *)
Pick == /\ phase = "running" /\ NextSite(all) # 0
        /\ all' = Append(all, IF Len(all) < Len(ings) THEN ings[Len(all) + 1]
                              ELSE Fresh(NextSite(all), Len(all) + 1))
        /\ UNCHANGED <<body, ings, fixed, phase>>
Finish == /\ phase = "running" /\ NextSite(all) = 0 /\ phase' = "run" /\ UNCHANGED <<body, ings, fixed, all>>
Accept == /\ phase = "run"
          /\ \E k \in 1..Len(ShrinksOf(all, fixed, Count)) :
               LET s == ShrinksOf(all, fixed, Count)[k] IN ings' = s.ings /\ fixed' = s.fixed
          /\ all' = <<>> /\ phase' = "running" /\ UNCHANGED body
Next == Pick \/ Finish \/ Accept
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
-------------------------------------------------------------------------------
(* a run makes the prescribed picks as long as it makes that many              *)
Replays == phase = "run" => \A i \in 1..Len(all) : i <= Len(ings) => all[i] = ings[i]
(* the body asks the same generators for the prescribed picks it made before   *)
SameSites == \A i \in 1..Len(all) : NextSite(SubSeq(all, 1, i - 1)) = all[i].s
OwnRandom == \A i \in 1..Len(all) : all[i].r = i
FixedOnly == fixed <= Len(ings)
(* final picks are never shrunk again and the number of them never drops        *)
Monotone == [][Accept => /\ fixed' >= fixed
                         /\ \A i \in 1..fixed : ings'[i] = all[i]]_mvars
Terminates == <>(phase = "run" /\ ShrinksOf(all, fixed, Count) = <<>>)
===============================================================================
