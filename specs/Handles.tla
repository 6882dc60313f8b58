-------------------------------- MODULE Handles --------------------------------
(* Owning handles (property C16).                                              *)
(* A slot is none (no handle there), empty (a handle without an object), moved  *)
(* (a handle whose content went elsewhere) or has an object. gen and shr        *)
(* handles share objects; seq, maybe, var and any handles own one each: copying *)
(* the handle copies the object. An object lives exactly as long as a slot has  *)
(* it. Objects: [id, p, pos]: p the payload, pos how far a sequence has got.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES slots,   \* kind -> sequence of slots
          fresh    \* next object id
hvars == <<slots, fresh>>
Kinds == {"gen", "shr", "seq", "maybe", "var", "any"}
Shared == {"gen", "shr"}
None == [s |-> "none"]
Empty == [s |-> "empty"]
Moved == [s |-> "moved"]
Has(id, p, pos) == [s |-> "has", id |-> id, p |-> p, pos |-> pos]
HInit(n) == slots = [k \in Kinds |-> [i \in 1..n |-> None]] /\ fresh = 1
At2(k, i) == slots[k][i]
Put(k, i, c) == [slots EXCEPT ![k][i] = c]
CanBeEmpty == {"seq", "maybe", "any"}
(* what a copy of c of a kind is *)
CopyOf(k, c) == IF c.s = "has" /\ k \notin Shared THEN Has(fresh, c.p, c.pos) ELSE c
HasKids(p) == p < 1000
Kid(p, j) == 3 * p + j
SeqOf(p) == 100000 + p
-------------------------------------------------------------------------------
New(k, i, p) == At2(k, i) = None /\ slots' = Put(k, i, Has(fresh, p, 0)) /\ fresh' = fresh + 1
NewEmpty(k, i) == k \in CanBeEmpty /\ At2(k, i) = None /\ slots' = Put(k, i, Empty) /\ UNCHANGED fresh
Copy(k, i, j) == /\ At2(k, i) = None /\ At2(k, j) # None /\ k # "any"
                 /\ slots' = Put(k, i, CopyOf(k, At2(k, j))) /\ fresh' = fresh + 1
Move(k, i, j) == /\ At2(k, i) = None /\ At2(k, j) # None
                 /\ slots' = [slots EXCEPT ![k][i] = At2(k, j), ![k][j] = IF @.s = "empty" THEN Empty ELSE Moved] /\ UNCHANGED fresh
CopyAssign(k, i, j) == /\ At2(k, i) # None /\ At2(k, j) # None /\ k # "any"
                       /\ slots' = IF i = j THEN slots ELSE Put(k, i, CopyOf(k, At2(k, j)))
                       /\ fresh' = fresh + 1
MoveAssign(k, i, j) == /\ At2(k, i) # None /\ At2(k, j) # None
                       /\ slots' = IF i = j THEN slots
                                   ELSE [slots EXCEPT ![k][i] = At2(k, j), ![k][j] = IF @.s = "empty" THEN Empty ELSE Moved]
                       /\ UNCHANGED fresh
Reset(k, i) == k \in {"maybe", "any"} /\ At2(k, i) # None /\ slots' = Put(k, i, Empty) /\ UNCHANGED fresh
Set(k, i, p) == k \in {"maybe", "var"} /\ At2(k, i) # None /\ slots' = Put(k, i, Has(fresh, p, 0)) /\ fresh' = fresh + 1
(* making the new object fails: an assignment leaves what was there, init has   *)
(* given it up                                                                  *)
SetFails(k, i, init) == /\ k \in {"maybe", "var"} /\ At2(k, i) # None /\ (k = "var" => ~init)
                        /\ slots' = IF init THEN Put(k, i, Empty) ELSE slots
                        /\ UNCHANGED fresh
Destroy(k, i) == At2(k, i) # None /\ slots' = Put(k, i, None) /\ UNCHANGED fresh
(* a generator makes a shrinkable, that a sequence of shrinks, that shrinkables *)
Generate(i, j) == /\ At2("gen", i).s = "has" /\ At2("shr", j) = None
                  /\ slots' = Put("shr", j, Has(fresh, At2("gen", i).p + 10, 0)) /\ fresh' = fresh + 1
Shrinks(i, j) == /\ At2("shr", i).s = "has" /\ At2("seq", j) = None
                 /\ slots' = Put("seq", j, Has(fresh, SeqOf(At2("shr", i).p), 0)) /\ fresh' = fresh + 1
NextIs(i) == LET c == At2("seq", i) IN
             IF c.s = "has" /\ HasKids(c.p - 100000) /\ c.pos < 3 THEN Kid(c.p - 100000, c.pos + 1) ELSE 0
NextKid(i, j) == /\ At2("seq", i) # None /\ At2("shr", j) = None
                 /\ slots' = IF NextIs(i) = 0 THEN slots
                             ELSE [slots EXCEPT !["seq"][i].pos = @ + 1, !["shr"][j] = Has(fresh, NextIs(i), 0)]
                 /\ fresh' = fresh + 1
-------------------------------------------------------------------------------
Held == UNION {{slots[k][i] : i \in {i \in 1..Len(slots[k]) : slots[k][i].s = "has"}} : k \in Kinds}
Objects == {<<c.id, c.p>> : c \in Held}
(* payloads of living objects, how many of each                                 *)
Living(p) == Cardinality({o \in Objects : o[2] = p})
Payloads == {o[2] : o \in Objects}
(* objects left behind by a move may go on existing, without payload            *)
Shells == Cardinality({<<k, i>> \in Kinds \X (1..Len(slots["gen"])) : slots[k][i].s = "moved" /\ k \notin Shared})
===============================================================================
