-------------------------------- MODULE Config --------------------------------
(* Configuration texts (property C15): a machine reads a text character by      *)
(* character and collects key=value pairs; then the pairs are applied to a      *)
(* configuration. Characters are their codes.                                   *)
EXTENDS Codec
Blank == {9, 10, 11, 12, 13, 32}
EqSign == 61
Backslash == 92
Quotes == {34, 39}
-------------------------------------------------------------------------------
(* Reading. ph: key0 before a key, kb in a bare key, kq in a quoted key, kend    *)
(* after a key, val0 before a value, vb, vq in a value, bad                     *)
Reader0 == [ph |-> "key0", k |-> <<>>, v |-> <<>>, q |-> 0, esc |-> FALSE, m |-> <<>>]
Drop(m, k) == SelectSeq(m, LAMBDA p : p[1] # k)
Put(m, k, v) == Append(Drop(m, k), <<k, v>>)      \* the last occurrence wins
Emit(r) == [r EXCEPT !.m = Put(r.m, r.k, r.v), !.ph = "key0", !.k = <<>>, !.v = <<>>]
KeyStart(r, c) == IF c \in Blank THEN [r EXCEPT !.ph = "key0"]
                  ELSE IF c = EqSign THEN [r EXCEPT !.ph = "bad"]
                  ELSE IF c \in Quotes THEN [r EXCEPT !.ph = "kq", !.q = c]
                  ELSE [r EXCEPT !.ph = "kb", !.k = <<c>>]
Quoted(r, c, part, done) ==
  IF r.esc THEN (IF part = "k" THEN [r EXCEPT !.k = Append(@, c), !.esc = FALSE] ELSE [r EXCEPT !.v = Append(@, c), !.esc = FALSE])
  ELSE IF c = Backslash THEN [r EXCEPT !.esc = TRUE]
  ELSE IF c = r.q THEN done
  ELSE IF part = "k" THEN [r EXCEPT !.k = Append(@, c)] ELSE [r EXCEPT !.v = Append(@, c)]
Step(r, c) ==
  CASE r.ph = "key0" -> KeyStart(r, c)
    [] r.ph = "kb" -> IF c = EqSign THEN [r EXCEPT !.ph = "val0"]
                      ELSE IF c \in Blank THEN [r EXCEPT !.ph = "kend"] ELSE [r EXCEPT !.k = Append(@, c)]
    [] r.ph = "kq" -> Quoted(r, c, "k", [r EXCEPT !.ph = IF r.k = <<>> THEN "bad" ELSE "kend"])
    [] r.ph = "kend" -> IF c \in Blank THEN r ELSE IF c = EqSign THEN [r EXCEPT !.ph = "val0"] ELSE KeyStart(Emit(r), c)
    [] r.ph = "val0" -> IF c \in Blank THEN r
                        ELSE IF c \in Quotes THEN [r EXCEPT !.ph = "vq", !.q = c]
                        ELSE [r EXCEPT !.ph = "vb", !.v = <<c>>]
    [] r.ph = "vb" -> IF c \in Blank THEN Emit(r) ELSE [r EXCEPT !.v = Append(@, c)]
    [] r.ph = "vq" -> Quoted(r, c, "v", Emit(r))
    [] r.ph = "bad" -> r
(* at the end of the text *)
Finish(r) == CASE r.ph \in {"kq", "vq", "bad"} -> [ok |-> FALSE, m |-> <<>>]
               [] r.ph = "key0" -> [ok |-> TRUE, m |-> r.m]
               [] OTHER -> [ok |-> TRUE, m |-> Emit(r).m]
RECURSIVE ReadFrom(_, _, _)
ReadFrom(r, t, i) == IF i > Len(t) THEN r ELSE ReadFrom(Step(r, t[i]), t, i + 1)
Parse(t) == Finish(ReadFrom(Reader0, t, 1))
-------------------------------------------------------------------------------
(* Writing: q is the quote used where one is needed                             *)
Escaped(s, q) == Concat([i \in 1..Len(s) |-> IF s[i] \in {q, Backslash} THEN <<Backslash, s[i]>> ELSE <<s[i]>>])
PrintItem(s, q) == IF \A i \in 1..Len(s) : s[i] \notin (Blank \cup Quotes \cup {EqSign, Backslash}) THEN s
                   ELSE <<q>> \o Escaped(s, q) \o <<q>>
PrintPair(p, q) == IF p[2] = <<>> THEN PrintItem(p[1], q) ELSE PrintItem(p[1], q) \o <<EqSign>> \o PrintItem(p[2], q)
RECURSIVE PrintMap(_, _)
PrintMap(m, q) == IF m = <<>> THEN <<>>
                  ELSE IF Len(m) = 1 THEN PrintPair(m[1], q)
                  ELSE PrintPair(m[1], q) \o <<32>> \o PrintMap(Tail(m), q)
-------------------------------------------------------------------------------
(* Numbers                                                                      *)
MaxInt == <<65535, 32767, 0, 0>>
(* 10 v + d; the last component is what did not fit                             *)
TimesTen(v, d) == LET s1 == v[1] * 10 + d
                      s2 == v[2] * 10 + s1 \div B16
                      s3 == v[3] * 10 + s2 \div B16
                      s4 == v[4] * 10 + s3 \div B16
                  IN [w |-> <<s1 % B16, s2 % B16, s3 % B16, s4 % B16>>, over |-> s4 \div B16 # 0]
RECURSIVE DigitsFrom(_, _, _)
DigitsFrom(s, i, acc) == IF i > Len(s) THEN acc
                         ELSE LET n == TimesTen(acc.w, s[i] - 48) IN DigitsFrom(s, i + 1, [w |-> n.w, over |-> acc.over \/ n.over])
IsDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in Blank THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* no: not acceptable; yes: has to be accepted; may: blanks or a sign around it  *)
Number(s, max, signed) ==
  LET t == TrimR(TrimL(s))
      neg == t # <<>> /\ t[1] = 45
      u == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
      d == DigitsFrom(u, 1, [w |-> Zero64, over |-> FALSE])
  IN IF ~IsDigits(u) \/ d.over \/ Lt(max, d.w) THEN [a |-> "no", v |-> Zero64]
     ELSE IF neg THEN (IF d.w = Zero64 THEN [a |-> "may", v |-> Zero64]
                       ELSE IF signed THEN [a |-> "may", v |-> Neg64(d.w)] ELSE [a |-> "no", v |-> Zero64])
     ELSE [a |-> IF u = s THEN "yes" ELSE "may", v |-> d.w]
RECURSIVE ToDigits(_)
DivTen(v) == LET q4 == v[4] \div 10 r4 == v[4] % 10
                 x3 == r4 * B16 + v[3] q3 == x3 \div 10
                 x2 == (x3 % 10) * B16 + v[2] q2 == x2 \div 10
                 x1 == (x2 % 10) * B16 + v[1] q1 == x1 \div 10
             IN [q |-> <<q1, q2, q3, q4>>, r |-> x1 % 10]
ToDigits(v) == LET d == DivTen(v) IN (IF d.q = Zero64 THEN <<>> ELSE ToDigits(d.q)) \o <<48 + d.r>>
Boolean(s) == IF s = <<48>> THEN [a |-> "yes", v |-> FALSE]
              ELSE IF s = <<49>> THEN [a |-> "yes", v |-> TRUE]
              ELSE LET n == Number(s, One64, FALSE) IN [a |-> IF n.a = "no" THEN "no" ELSE "may", v |-> n.v = One64]
Repro(s) == LET t == FromText(s) IN
            IF ~t.ok THEN [a |-> "no", v |-> <<>>]
            ELSE LET d == DecMap(t.v, 1) IN
                 IF ~d.ok THEN [a |-> IF t.c THEN "no" ELSE "any", v |-> <<>>]
                 ELSE [a |-> IF t.c /\ d.c /\ d.i = Len(t.v) + 1 THEN "yes" ELSE "any", v |-> d.v]
-------------------------------------------------------------------------------
(* Configurations                                                               *)
kSeed == <<115, 101, 101, 100>>
kMaxSuccess == <<109, 97, 120, 95, 115, 117, 99, 99, 101, 115, 115>>
kMaxSize == <<109, 97, 120, 95, 115, 105, 122, 101>>
kMaxRatio == <<109, 97, 120, 95, 100, 105, 115, 99, 97, 114, 100, 95, 114, 97, 116, 105, 111>>
kNoShrink == <<110, 111, 115, 104, 114, 105, 110, 107>>
kProgress == <<118, 101, 114, 98, 111, 115, 101, 95, 112, 114, 111, 103, 114, 101, 115, 115>>
kShrinking == <<118, 101, 114, 98, 111, 115, 101, 95, 115, 104, 114, 105, 110, 107, 105, 110, 103>>
kReproduce == <<114, 101, 112, 114, 111, 100, 117, 99, 101>>
Keys == {kSeed, kMaxSuccess, kMaxSize, kMaxRatio, kNoShrink, kProgress, kShrinking, kReproduce}
Hundred == FromNat(100)
Default == [seed |-> Zero64, success |-> Hundred, size |-> Hundred, ratio |-> FromNat(10),
            noshrink |-> FALSE, progress |-> FALSE, shrinking |-> FALSE, rep |-> <<>>]
Field(k) == CASE k = kSeed -> "seed" [] k = kMaxSuccess -> "success" [] k = kMaxSize -> "size" [] k = kMaxRatio -> "ratio"
              [] k = kNoShrink -> "noshrink" [] k = kProgress -> "progress" [] k = kShrinking -> "shrinking" [] k = kReproduce -> "rep"
(* what a value means for a key: a is yes, may (refused or this), any or no     *)
Meaning(k, s) == CASE k = kSeed -> Number(s, Max64, TRUE)
                   [] k \in {kMaxSuccess, kMaxSize, kMaxRatio} -> Number(s, MaxInt, FALSE)
                   [] k \in {kNoShrink, kProgress, kShrinking} -> Boolean(s)
                   [] k = kReproduce -> Repro(s)
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
ValueOf(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]
Known(m) == {k \in Keys : Has(m, k)}
(* keys whose value has to be, or may be, refused                               *)
Wrong(m) == {k \in Known(m) : Meaning(k, ValueOf(m, k)).a = "no"}
Doubtful(m) == {k \in Known(m) : Meaning(k, ValueOf(m, k)).a \in {"may", "any"}}
SetOf(q) == {q[j] : j \in 1..Len(q)}
SameValue(f, x, y) == IF f = "rep" THEN Len(x) = Len(y) /\ SetOf(x) = SetOf(y) ELSE x = y
SameConfig(c, d) == \A f \in DOMAIN Default : SameValue(f, c[f], d[f])
(* c is what the pairs make of the configuration d                              *)
AppliedIs(m, d, c) ==
  \A k \in Keys : LET f == Field(k) IN
     IF ~Has(m, k) THEN SameValue(f, c[f], d[f])
     ELSE LET x == Meaning(k, ValueOf(m, k)) IN
          CASE x.a \in {"yes", "may"} -> SameValue(f, c[f], x.v)
            [] x.a = "any" -> TRUE
            [] x.a = "no" -> FALSE
Bit01(b) == IF b THEN <<49>> ELSE <<48>>
Text(k, c) == CASE k \in {kSeed, kMaxSuccess, kMaxSize, kMaxRatio} -> ToDigits(c[Field(k)])
                [] k \in {kNoShrink, kProgress, kShrinking} -> Bit01(c[Field(k)])
                [] k = kReproduce -> ToText(EncMap(c.rep))
KeyOrder == <<kMaxRatio, kMaxSize, kMaxSuccess, kNoShrink, kReproduce, kSeed, kProgress, kShrinking>>
Full(c) == [i \in 1..Len(KeyOrder) |-> <<KeyOrder[i], Text(KeyOrder[i], c)>>]
Differs(k, c) == ~SameValue(Field(k), c[Field(k)], Default[Field(k)])
Minimal(c) == SelectSeq(Full(c), LAMBDA p : p[1] = kSeed \/ Differs(p[1], c))
===============================================================================
