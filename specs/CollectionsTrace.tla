--------------------------- MODULE CollectionsTrace ---------------------------
(* cfg: kind, order ("list" | "sorted": how the collection shows its elements), *)
(*      pairs, count (-1: free), size, m (for unique), n (array length, -1)     *)
(* key [x], val [x]: an element generator was called and will give x (-1: it    *)
(*   fails when asked for its value)                                            *)
(* at [v]: collection at the current node; failed: generation failure;          *)
(* bad: asking for the value of the current node failed                         *)
(* shrinks [list]: collections of the shrinks in order; choose [i]              *)
EXTENDS Collections, VT
Ch == INSTANCE ScalarShrink
VARIABLES sid, l, ks, vs, tries, s, cand, phase
tvars == <<sid, l, ks, vs, tries, s, cand, phase>>
S == Scenarios[sid]
C == S.cfg
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ ks = <<>> /\ vs = <<>> /\ tries = 0 /\ s = <<>> /\ cand = <<>> /\ phase = "gen"
Fixed == C.count >= 0
(* an element that cannot be evaluated ends generation where its value matters  *)
TKey == /\ At("key") /\ phase = "gen" /\ tries < 100 /\ ~(C.n >= 0 /\ C.count # C.n)
        /\ (Fixed => Len(ks) < C.count) /\ Len(ks) < (IF Fixed THEN C.count ELSE C.size)
        /\ IF Acceptable(C.kind, C.m, ks, <<E.x, 0>>) THEN ks' = Append(ks, <<E.x, 0>>) /\ tries' = 0
           ELSE tries' = tries + 1 /\ UNCHANGED ks
        /\ UNCHANGED <<vs, s, cand, phase>>
TVal == /\ At("val") /\ phase = "gen" /\ C.pairs /\ vs' = Append(vs, E.x) /\ UNCHANGED <<ks, tries, s, cand, phase>>
Elements == IF C.pairs THEN [i \in 1..Len(ks) |-> <<ks[i][1], vs[Len(vs) - Len(ks) + i]>>] ELSE ks
LtE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sorted(q) == SortSeq(q, LtE)
Shown(q) == IF C.order = "sorted" THEN Sorted(q) ELSE q
Bad(q) == \E i \in 1..Len(q) : q[i][1] = -1 \/ q[i][2] = -1
TText == /\ At("text") /\ phase = "gen" /\ C.kind = "text"
         /\ Len(E.v) <= C.size /\ \A i \in 1..Len(E.v) : E.v[i][1] # 0
         /\ s' = E.v /\ phase' = "have" /\ UNCHANGED <<ks, vs, tries, cand>>
Complete == /\ tries < 100
            /\ ~Fixed => Len(ks) <= C.size
            /\ Fixed => Len(ks) = C.count
            /\ C.pairs => Len(vs) >= Len(ks)
Current == IF phase = "gen" THEN Elements ELSE s
TAt == /\ At("at") /\ (phase = "gen" => Complete /\ C.kind # "text")
       /\ ~Bad(Current) /\ E.v = Shown(Current)
       /\ s' = Current /\ phase' = "have" /\ UNCHANGED <<ks, vs, tries, cand>>
TBad == /\ At("bad") /\ (phase = "gen" => Complete) /\ Bad(Current)
        /\ s' = Current /\ phase' = "have" /\ UNCHANGED <<ks, vs, tries, cand>>
TFailed == /\ At("failed") /\ phase = "gen" /\ (tries = 100 \/ (C.n >= 0 /\ C.count # C.n))
           /\ phase' = "failed" /\ UNCHANGED <<ks, vs, tries, s, cand>>
RECURSIVE TextFrom(_, _)
TextFrom(q, i) == IF i > Len(q) THEN <<>>
                  ELSE LET cs == Ch!Character(q[i][1]) IN
                       [j \in 1..Len(cs) |-> [q EXCEPT ![i] = <<cs[j], 0>>]] \o TextFrom(q, i + 1)
List == IF C.kind = "text" THEN RemoveChunks(s) \o TextFrom(s, 1)
        ELSE ShrinksOf(C.kind, C.m, C.pairs, Fixed, s)
TShrinks == /\ At("shrinks") /\ phase = "have"
            /\ LET L == List IN
                 /\ Len(E.list) = Len(L)
                 /\ \A i \in 1..Len(L) : IF Bad(L[i]) THEN E.list[i] = "bad" ELSE E.list[i] = Shown(L[i])
                 /\ cand' = L
            /\ UNCHANGED <<ks, vs, tries, s, phase>>
TChoose == At("choose") /\ s' = cand[E.i] /\ cand' = <<>> /\ UNCHANGED <<ks, vs, tries, phase>>
(* Long collections of 0, 1, .., n-1 without element shrinks: collections written *)
(* as their maximal runs. whole [runs]; removed [left, list]: all candidates with *)
(* so many elements left                                                         *)
RunOf(a, b) == IF a > b THEN <<>> ELSE <<<<a, b>>>>
RunsOf(n, k) == [i \in 1..(n - k + 1) |-> RunOf(0, i - 2) \o RunOf(i - 1 + k, n - 1)]
TWhole == /\ At("whole") /\ C.kind = "long" /\ phase = "gen" /\ E.runs = RunOf(0, C.n - 1) /\ C.n <= C.size
          /\ UNCHANGED <<ks, vs, tries, s, cand, phase>>
(* tries: chunk sizes done so far                                                *)
TRemoved == /\ At("removed") /\ C.kind = "long"
            /\ E.left = tries /\ tries < C.n /\ tries' = tries + 1
            /\ E.list = RunsOf(C.n, C.n - tries)
            /\ UNCHANGED <<ks, vs, s, cand, phase>>
TEnd == l = Len(S.ev) + 1 /\ (IF C.kind = "long" THEN tries = C.n ELSE phase # "gen") /\ l' = l + 1 /\ UNCHANGED <<sid, ks, vs, tries, s, cand, phase>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TWhole \/ TRemoved \/ TKey \/ TVal \/ TText \/ TAt \/ TBad \/ TFailed \/ TShrinks \/ TChoose \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
