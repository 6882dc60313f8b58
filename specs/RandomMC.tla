------------------------------- MODULE RandomMC -------------------------------
(* The construction used: a key, a word of KBits path bits and a counter are    *)
(* hashed into a block of Block numbers. When the word is full it is hashed     *)
(* into the key. Hashing is a free constructor here, so two numbers are equal   *)
(* only if everything hashed is. Every tree of splits up to a depth, draws from *)
(* any leaf beyond the counter, saving and restoring.                           *)
EXTENDS RandomTree, TLC
CONSTANTS KBits, CMax, Block, MaxGens, MaxSteps, MaxDepth
VARIABLES gens,   \* the generators: concrete state and abstract place
          drawn,  \* set of [p: place, v: number]
          steps
vars == <<gens, drawn, steps>>
NoBlock == <<"none">>
Key0 == <<"k">>
Hash(g) == <<"h", g.key, g.bits, g.counter>>
Append0(g, x) == LET f == IF g.bitsi = KBits THEN [g EXCEPT !.key = Hash(g), !.bits = 0, !.bitsi = 0] ELSE g IN
                 [f EXCEPT !.bits = @ + x * 2 ^ f.bitsi, !.bitsi = @ + 1]
New(k) == [key |-> k, block |-> NoBlock, bits |-> 0, counter |-> 0, bitsi |-> 0]
Gen(c, p) == [c |-> c, p |-> p]
Init == gens = <<Gen(New(Key0), Place(Key0, <<>>, 0))>> /\ drawn = {} /\ steps = 0
Split(i) == LET g == gens[i] IN
  /\ Len(gens) < MaxGens /\ g.p.n = 0 /\ Len(g.p.path) < MaxDepth /\ ~\E d \in drawn : IsPrefix(d.p.path, g.p.path)
  /\ \A j \in 1..Len(gens) : j # i => gens[j].p.path # g.p.path
  /\ gens' = Append([gens EXCEPT ![i] = Gen(Append0(g.c, 0), Place(g.p.key, Append(g.p.path, 0), 0))],
                    Gen(Append0(g.c, 1), Place(g.p.key, Append(g.p.path, 1), 0)))
  /\ UNCHANGED drawn
Draw(i) == LET g == gens[i]
               blki == g.c.counter % Block
               c1 == IF blki = 0 THEN [g.c EXCEPT !.block = Hash(g.c)] ELSE g.c
               c2 == IF c1.counter = CMax THEN [Append0(c1, 1) EXCEPT !.counter = 0] ELSE [c1 EXCEPT !.counter = @ + 1]
               p2 == IF g.p.n = CMax THEN Place(g.p.key, Append(g.p.path, 1), 0) ELSE [g.p EXCEPT !.n = @ + 1] IN
  /\ Len(p2.path) <= MaxDepth + 1
  /\ drawn' = drawn \cup {[p |-> g.p, v |-> <<c1.block, blki>>]}
  /\ gens' = [gens EXCEPT ![i] = Gen(c2, p2)]
Copy(i) == Len(gens) < MaxGens /\ gens' = Append(gens, gens[i]) /\ UNCHANGED drawn
(* saved without the block, which is computed again                              *)
Restored(c) == IF c.counter = 0 THEN [c EXCEPT !.block = NoBlock]
               ELSE [c EXCEPT !.block = Hash([c EXCEPT !.counter = c.counter - (((c.counter - 1) % Block) + 1)])]
Restore(i) == gens' = [gens EXCEPT ![i].c = Restored(@)] /\ UNCHANGED drawn
Next == steps < MaxSteps /\ steps' = steps + 1 /\ \E i \in 1..Len(gens) : Split(i) \/ Draw(i) \/ Copy(i) \/ Restore(i)
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
(* a place determines the number; different places have different numbers        *)
Function == \A d, e \in drawn : d.p = e.p => d.v = e.v
Different == \A d, e \in drawn : d.p # e.p /\ ~Related(d.p, e.p) => d.v # e.v
(* equality: of generators that did not start a second round of the counter      *)
EqualIsSame == \A i, j \in 1..Len(gens) : (gens[i].c = gens[j].c) => gens[i].p = gens[j].p
SameIsEqual == \A i, j \in 1..Len(gens) : gens[i].p = gens[j].p =>
                 [gens[i].c EXCEPT !.block = NoBlock] = [gens[j].c EXCEPT !.block = NoBlock]
RestoredEqual == \A i \in 1..Len(gens) : gens[i].c.counter > 0 => Restored(gens[i].c) = gens[i].c
===============================================================================
