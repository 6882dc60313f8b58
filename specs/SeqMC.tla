--------------------------------- MODULE SeqMC ---------------------------------
(* All expressions of two combinators over small sources; all interleavings of   *)
(* advancing, copying and assigning a few handles.                               *)
EXTENDS SeqLang, TLC
CONSTANTS Steps, Handles
VARIABLES hs,     \* handles: [s, out, ended, n]; the evaluations made so far in used
          steps
vars == <<nodes, hs, steps>>
N(k, c, p, q, v) == [k |-> k, c |-> c, p |-> p, q |-> q, v |-> v]
Sources == {N("leaf", <<>>, 0, 0, <<>>), N("leaf", <<>>, 3, 0, <<>>), N("leaf", <<>>, 3, 2, <<>>), N("just", <<>>, 0, 0, <<3, 4>>),
            N("cont", <<>>, 0, 0, <<5>>), N("repeat", <<>>, 6, 0, <<>>), N("index", <<>>, 0, 0, <<>>), N("iterate", <<>>, 1, 2, <<>>),
            N("range", <<>>, 2, 4, <<>>), N("range", <<>>, 7, 4, <<>>), N("subr", <<>>, 0, 2, <<>>)}
One(c) == {N("take", <<c>>, 0, 0, <<>>), N("take", <<c>>, 2, 0, <<>>), N("drop", <<c>>, 1, 0, <<>>), N("drop", <<c>>, 0, 0, <<>>)}
          \cup {N("map", <<c>>, f, 0, <<>>) : f \in {0, 2}} \cup {N("filter", <<c>>, p, 0, <<>>) : p \in {1, 3}}
          \cup {N("takewhile", <<c>>, p, 0, <<>>) : p \in {2, 3}} \cup {N("dropwhile", <<c>>, p, 0, <<>>) : p \in {1, 3}}
          \cup {N("mapmaybe", <<c>>, f, 0, <<>>) : f \in {0, 1}} \cup {N("cast", <<c>>, 0, 0, <<>>)}
Two(c, d) == {N("concat", <<c, d>>, 0, 0, <<>>), N("zip", <<c, d>>, 1, 0, <<>>), N("mapcat", <<c, d>>, 1, 0, <<>>), N("join", <<c, d>>, 1, 0, <<>>),
              N("concat", <<c>>, 0, 0, <<>>), N("zip", <<c, d, c>>, 0, 0, <<>>)}
(* root 1; its children 2 and 3; 4 is a child of 2 *)
Exprs == {<<r, a, b, s>> : r \in (One(2) \cup Two(2, 3)), a \in (Sources \cup One(4) \cup {N("cycle", <<4>>, 0, 0, <<>>)}),
          b \in {x \in Sources : x.k \in {"leaf", "just", "range"}}, s \in {x \in Sources : x.k \in {"leaf", "just", "iterate"} /\ x # N("leaf", <<>>, 0, 0, <<>>)}}
MCInit == /\ nodes \in {e \in Exprs : (Len(e[1].c) = 1 => e[3] = N("just", <<>>, 0, 0, <<3, 4>>)) /\ (Len(e[2].c) = 0 => e[4].k = "just")}
          /\ steps = 0 /\ hs = <<[s |-> Mk(1, 0), out |-> <<>>, ended |-> FALSE, used |-> <<>>]>>
Advance(h) == LET y == Pull(hs[h].s) IN
  /\ y.r # NoFuel
  /\ hs' = [hs EXCEPT ![h] = [s |-> y.s, out |-> IF y.r = End THEN @.out ELSE Append(@.out, y.r[2]),
                              ended |-> @.ended \/ y.r = End, used |-> @.used \o y.ev]]
CopyTo == Len(hs) < Handles /\ \E h \in 1..Len(hs) : hs' = Append(hs, hs[h])
Next0 == steps < Steps /\ steps' = steps + 1 /\ UNCHANGED nodes
         /\ (CopyTo \/ \E h \in 1..Len(hs) : Advance(h))
MCSpec == MCInit /\ [][Next0]_vars
(* every handle has yielded a prefix of the list and ended only at its end       *)
IsList == LET D == Den(1, 0) IN \A h \in 1..Len(hs) :
  /\ Len(hs[h].out) > Len(D.l) => D.more
  /\ \A i \in 1..Len(hs[h].out) : i <= Len(D.l) => hs[h].out[i] = D.l[i]
  /\ hs[h].ended => (Len(hs[h].out) = Len(D.l) \/ D.more)
(* once ended, ended; other handles are not affected by advancing one            *)
StaysEnded == [][\A h \in 1..Len(hs) : hs[h].ended => hs'[h].out = hs[h].out /\ hs'[h].ended]_vars
Independent == [][Cardinality({h \in 1..Len(hs) : hs'[h] # hs[h]}) <= 1]_vars
(* no element of a source is computed twice on one way through a sequence,       *)
(* unless the expression asks for it again (joins and cycles)                    *)
Plain == \A i \in 1..4 : nodes[i].k \notin {"mapcat", "join", "cycle", "iterate"} /\ Len(nodes[i].c) <= 2
Leafs(ev) == SelectSeq(ev, LAMBDA e : nodes[e[1]].k = "leaf")
Once == Plain => \A h \in 1..Len(hs) : LET ev == Leafs(hs[h].used) IN \A i, j \in 1..Len(ev) : ev[i] = ev[j] => i = j
(* laziness: nothing is evaluated before the first element is asked for, and no  *)
(* more elements of a leaf than asked for if nothing is skipped                  *)
Lazy == /\ (steps = 0 => hs[1].used = <<>>)
        /\ (nodes[1].k = "take" /\ nodes[2].k = "leaf") => \A h \in 1..Len(hs) : Len(hs[h].used) <= Min2(nodes[1].p, Len(hs[h].out) + 1)
===============================================================================
