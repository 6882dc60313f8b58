---------------------------- MODULE ScalarShrinkMC ----------------------------
(* Every value and every target of an 8-bit type, exhaustively: the rules give *)
(* what the property says and every shrinking sequence ends. And the rules on  *)
(* words agree with plain arithmetic.                                          *)
EXTENDS ScalarShrink, TLC
CONSTANT Bits
Lo == -(2 ^ (Bits - 1))
Hi == 2 ^ (Bits - 1) - 1
VARIABLES kind, v, t, list
svars == <<kind, v, t, list>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE PlainTowards(_, _, _)
PlainTowards(x, tgt, d) == IF d = 0 THEN <<>> ELSE <<IF tgt < x THEN x - d ELSE x + d>> \o PlainTowards(x, tgt, d \div 2)
Plain(s) == [i \in 1..Len(s) |-> ToInt(s[i])]
ListOf(k, x, tgt) == TLCEval(CASE k = "start" -> <<>>
          [] k = "towards" -> Plain(Towards(FromInt(x), FromInt(tgt)))
          [] k = "integral" -> Plain(Integral(FromInt(x), x > Lo))
          [] k = "character" -> Character(x))
Init == kind = "start" /\ t = 0 /\ list = <<>> /\ v \in Lo..Hi
Go(k, x, tgt) == kind' = k /\ v' = x /\ t' = tgt /\ list' = ListOf(k, x, tgt)
Choose == kind = "start" /\ \/ \E tgt \in Lo..Hi : Go("towards", v, tgt)
                            \/ Go("integral", v, 0)
                            \/ Go("character", v - Lo, 0)
(* one step of shrinking: any of the candidates *)
Step == kind # "start" /\ \E i \in 1..Len(list) : Go(kind, list[i], t)
Spec == Init /\ [][Choose \/ Step]_svars
List == list
Simpler(x, y) == CASE kind = "towards" -> Abs(x - t) < Abs(y - t)
                   [] kind = "integral" -> Abs(x) < Abs(y) \/ (Abs(x) = Abs(y) /\ x > y)
                   [] kind = "character" -> x # y
Never == kind # "start" => \A i \in 1..Len(List) : List[i] # v /\ Simpler(List[i], v)
InRange == kind \notin {"character", "start"} => \A i \in 1..Len(List) : List[i] \in Lo..Hi
First == kind = "towards" /\ v # t => List[1] = t /\ Abs(List[Len(List)] - v) = 1
Matches == kind = "towards" => List = PlainTowards(v, t, Abs(v - t))
Between == kind = "towards" => \A i \in 1..Len(List) : (List[i] - v) * (t - v) > 0 /\ Abs(List[i] - v) <= Abs(t - v)
Distinct == kind # "character" => \A i, j \in 1..Len(List) : i # j => List[i] # List[j]
(* every step decreases a rank, so no sequence of steps is infinite; characters *)
(* are ranked by where they occur                                              *)
CRank(c) == CASE c = 97 -> 0 [] c = 98 -> 1 [] c = 99 -> 2 [] c = 49 -> 3 [] c = 50 -> 3 [] c = 51 -> 3
              [] c = 32 -> 3 [] c = 10 -> 3 [] c = 65 -> 4 [] c = 66 -> 5 [] c = 67 -> 6
              [] IsLower(c) -> 7 [] OTHER -> 8
Decreases == kind = "character" => \A i \in 1..Len(List) : CRank(List[i]) < CRank(v)
===============================================================================
