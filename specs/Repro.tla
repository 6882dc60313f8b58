--------------------------------- MODULE Repro ---------------------------------
(* Determinism and reproduction (property C04). A property is a function from  *)
(* generator states (random, size) to shrink trees; a run is a function of the *)
(* property, the seed and the parameters; a failure is reproduced from         *)
(* (random, size, path) alone.                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Rnds,        \* generator states a run goes through, in order: 1..n
          Trees,       \* possible shrink trees (ShrinkSearch nodes)
          Ids          \* property ids; "" is "no id"

VARIABLES prop,        \* id -> [1..n -> Trees]
          map,         \* reproduction data: id -> [rnd, path], partial
          last         \* last observed result and the number of cases run for it
rvars == <<prop, map, last>>

RECURSIVE NodeAt(_, _), PathExists(_, _), Greedy(_)
NodeAt(t, p) == IF p = <<>> THEN t ELSE NodeAt(t.c[p[1] + 1], Tail(p))
PathExists(t, p) == p = <<>> \/ (p[1] < Len(t.c) /\ PathExists(t.c[p[1] + 1], Tail(p)))
FirstFail(c) == IF \E i \in 1..Len(c) : c[i].o = "F"
                THEN CHOOSE i \in 1..Len(c) : c[i].o = "F" /\ \A j \in 1..(i - 1) : c[j].o # "F"
                ELSE 0
Greedy(t) == LET f == FirstFail(t.c)
             IN IF f = 0 THEN <<>> ELSE <<f - 1>> \o Greedy(t.c[f])

(* the outcome of a complete run: deterministic *)
RunOf(pr, noshrink) ==
  IF \E r \in DOMAIN pr : pr[r].o = "F"
  THEN LET r == CHOOSE r \in DOMAIN pr : pr[r].o = "F" /\ \A q \in DOMAIN pr : q < r => pr[q].o # "F"
           p == IF noshrink THEN <<>> ELSE Greedy(pr[r])
       IN [type |-> "failed", rnd |-> r, path |-> p, node |-> NodeAt(pr[r], p)]
  ELSE [type |-> "ok", rnd |-> 0, path |-> <<>>, node |-> <<>>]

(* what reproducing [rnd, path] on a property has to give *)
ReproOf(pr, d, noshrink) ==
  LET t == pr[d.rnd]
      p == IF noshrink THEN <<>> ELSE d.path
  IN IF ~PathExists(t, p) THEN [type |-> "error"]
     ELSE IF NodeAt(t, p).o # "F" THEN [type |-> "error"]
     ELSE [type |-> "failed", rnd |-> d.rnd, path |-> p, node |-> NodeAt(t, p)]

NoResult == [kind |-> "none"]
Init == /\ prop \in [Ids -> [Rnds -> Trees]]
        /\ map = [i \in {} |-> 0]
        /\ last = NoResult

(* a run without reproduction data; failures of properties with an id are      *)
(* remembered (first one only)                                                 *)
Run(id, ns) ==
  /\ DOMAIN map = {}
  /\ last' = [kind |-> "run", id |-> id, ns |-> ns, res |-> RunOf(prop[id], ns)]
  /\ UNCHANGED <<prop, map>>
Remember ==
  /\ last.kind = "run" /\ last.res.type = "failed" /\ last.id # ""
  /\ map' = [i \in DOMAIN map \cup {last.id} |->
               IF i \in DOMAIN map THEN map[i] ELSE [rnd |-> last.res.rnd, path |-> last.res.path]]
  /\ UNCHANGED <<prop, last>>
(* the same check while reproduction data is given *)
Check(id, ns) ==
  /\ DOMAIN map # {}
  /\ last' = [kind |-> "check", id |-> id, ns |-> ns,
              res |-> IF id = "" \/ id \notin DOMAIN map THEN [type |-> "skipped"]
                      ELSE ReproOf(prop[id], map[id], ns)]
  /\ UNCHANGED <<prop, map>>
(* the code under test changes while old reproduction data is kept             *)
Edit(id, r, t) ==
  /\ DOMAIN map # {} /\ prop[id][r] # t
  /\ prop' = [prop EXCEPT ![id][r] = t]
  /\ last' = NoResult /\ UNCHANGED map

Next == \/ \E id \in Ids, ns \in BOOLEAN : Run(id, ns) \/ Check(id, ns)
        \/ Remember
        \/ \E id \in Ids, r \in Rnds, t \in Trees : Edit(id, r, t)
Spec == Init /\ [][Next]_rvars

-------------------------------------------------------------------------------
(* with unchanged code and shrinking as in the original run, reproducing gives *)
(* exactly the minimal case a run finds; never an error                        *)
SameMinimal ==
  last.kind = "check" /\ last.res.type # "skipped" /\ ~last.ns =>
    LET run == RunOf(prop[last.id], FALSE)
    IN (run.type = "failed" /\ run.rnd = map[last.id].rnd /\ run.path = map[last.id].path)
         => last.res = run
(* with shrinking disabled it is the case itself *)
OriginalCase ==
  last.kind = "check" /\ last.res.type = "failed" /\ last.ns => last.res.path = <<>>
(* stale data never turns into success, and what is reported fails             *)
NeverGreen ==
  last.kind = "check" /\ last.res.type # "skipped" =>
    /\ last.res.type \in {"error", "failed"}
    /\ last.res.type = "failed" => last.res.node.o = "F"
SkipOnly == last.kind = "check" /\ last.res.type = "skipped" => (last.id = "" \/ last.id \notin DOMAIN map)
===============================================================================
