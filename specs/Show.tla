--------------------------------- MODULE Show ---------------------------------
(* How values are shown (property C22). A value is a tree; a printer works it    *)
(* off with a stack of texts and values still to be written. Texts are sequences *)
(* of character codes. Kinds of values:                                          *)
(*   [k "bool", b]  [k "num", neg, m]  [k "str", s]  [k "raw", s]: what its own    *)
(*   operator writes  [k "un"]: cannot be shown  [k "null"]  [k "nothing"]          *)
(*   [k "list" | "set" | "tup" | "wide" | "many" | "lines", c]: parts               *)
(*   [k "just", v]  [k "ptr", v, a]                                               *)
EXTENDS Word64
VARIABLES value, todo, out, fmt
svars == <<value, todo, out, fmt>>
RECURSIVE Digits(_, _)
(* digits of a word from the lowest on, to a base of at most 16                 *)
Small(m, base) == LET h4 == m[4] % base h3 == (h4 * B16 + m[3]) % base h2 == (h3 * B16 + m[2]) % base
                  IN (h2 * B16 + m[1]) % base
Part(m, base) == LET r4 == m[4] % base q3 == r4 * B16 + m[3] q2 == (q3 % base) * B16 + m[2] q1 == (q2 % base) * B16 + m[1]
                 IN <<q1 \div base, q2 \div base, q3 \div base, m[4] \div base>>
Digits(m, base) == IF m = Zero64 THEN <<>> ELSE Append(Digits(Part(m, base), base), Small(m, base))
DigitCode(d) == IF d < 10 THEN 48 + d ELSE 87 + d
UpperCode(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Number(m, base) == IF m = Zero64 THEN <<48>> ELSE LET d == Digits(m, base) IN [i \in 1..Len(d) |-> DigitCode(d[i])]
True4 == <<116, 114, 117, 101>>
False5 == <<102, 97, 108, 115, 101>>
NullText == <<110, 117, 108, 108, 112, 116, 114>>
NothingText == <<78, 111, 116, 104, 105, 110, 103>>
UnknownText == <<60, 63, 63, 63, 62>>
Comma == <<44, 32>>
Letter == [c \in {0, 7, 8, 9, 10, 11, 12, 13} |->
           CASE c = 0 -> 48 [] c = 7 -> 97 [] c = 8 -> 98 [] c = 9 -> 116 [] c = 10 -> 110 [] c = 11 -> 118 [] c = 12 -> 102 [] OTHER -> 114]
Escape(c) == IF c \in {34, 92} THEN <<92, c>>
             ELSE IF c \in 32..126 THEN <<c>>
             ELSE IF c \in DOMAIN Letter THEN <<92, Letter[c]>>
             ELSE <<92, 120, UpperCode(c \div 16), UpperCode(c % 16)>>
RECURSIVE Escaped(_, _)
Escaped(s, i) == IF i > Len(s) THEN <<>> ELSE Escape(s[i]) \o Escaped(s, i + 1)
Brackets(k) == CASE k \in {"list", "many"} -> <<<<91>>, <<93>>>> [] k = "set" -> <<<<123>>, <<125>>>> [] k = "tup" -> <<<<40>>, <<41>>>>
                 [] k = "wide" -> <<<<34>>, <<34>>>> [] OTHER -> <<<<>>, <<>>>>
Leaf(v) == CASE v.k = "bool" -> IF v.b THEN True4 ELSE False5
             [] v.k = "num" -> (IF v.neg THEN <<45>> ELSE <<>>) \o Number(v.m, 10)
             [] v.k = "str" -> <<34>> \o Escaped(v.s, 1) \o <<34>>
             [] v.k = "raw" -> v.s
             [] v.k = "un" -> UnknownText
             [] v.k = "null" -> NullText
             [] OTHER -> NothingText
Compound == {"list", "set", "tup", "wide", "many", "lines"}
(* what a value consists of: items are [t |-> text] and [v |-> value]           *)
Text(s) == [f |-> "text", t |-> s]
Val(v) == [f |-> "val", v |-> v]
RECURSIVE Parts(_, _)
Parts(c, i) == IF i > Len(c) THEN <<>> ELSE (IF i > 1 THEN <<Text(Comma)>> ELSE <<>>) \o <<Val(c[i])>> \o Parts(c, i + 1)
RECURSIVE Lines(_, _)
Lines(c, i) == IF i > Len(c) THEN <<>> ELSE <<Val(c[i]), Text(<<10>>)>> \o Lines(c, i + 1)
Address(a) == <<32, 40, 48, 120>> \o Number(a, 16) \o <<41>>
Items(v) == CASE v.k = "just" -> <<Val(v.v)>>
              [] v.k = "ptr" -> <<Val(v.v), Text(Address(v.a))>>
              [] v.k = "lines" -> Lines(v.c, 1)
              [] v.k = "many" -> <<Text(<<91>>)>> \o Parts(v.c, 1) \o <<Text(Comma \o <<46, 46, 46, 93>>)>>
              [] v.k \in Compound -> <<Text(Brackets(v.k)[1])>> \o Parts(v.c, 1) \o <<Text(Brackets(v.k)[2])>>
              [] OTHER -> <<Text(Leaf(v))>>
(* the whole text                                                               *)
RECURSIVE Shown(_), ShownItems(_, _, _)
ShownItems(items, i, acc) == IF i > Len(items) THEN acc
                             ELSE ShownItems(items, i + 1, acc \o (IF items[i].f = "text" THEN items[i].t ELSE Shown(items[i].v)))
Shown(v) == ShownItems(Items(v), 1, <<>>)
-------------------------------------------------------------------------------
(* the printer; fmt is the formatting state of the stream                       *)
SInit(v, f) == value = v /\ todo = <<Val(v)>> /\ out = <<>> /\ fmt = f
Write == /\ todo # <<>> /\ Head(todo).f = "text"
         /\ out' = out \o Head(todo).t /\ todo' = Tail(todo) /\ UNCHANGED <<value, fmt>>
Expand == /\ todo # <<>> /\ Head(todo).f = "val"
          /\ todo' = Items(Head(todo).v) \o Tail(todo) /\ UNCHANGED <<value, out, fmt>>
Done == todo = <<>>
-------------------------------------------------------------------------------
(* Reading it back, given the type: [k "bool" | "num" | "str"], [k "list" | "set" *)
(* | "wide", e: type of the elements], [k "tup", e: types of the elements],       *)
(* [k "maybe", e]. A result is [ok, v, i]: i is the place after the text.         *)
Bad == [ok |-> FALSE, v |-> [k |-> "un"], i |-> 0]
Got(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
At1(t, i, s) == i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s
RECURSIVE NumTo(_, _, _), StrTo(_, _, _)
IsDigit(t, i) == i <= Len(t) /\ t[i] \in 48..57
NumTo(t, i, n) == IF IsDigit(t, i) THEN NumTo(t, i + 1, 10 * n + t[i] - 48) ELSE [n |-> n, i |-> i]
HexOf(c) == IF c <= 57 THEN c - 48 ELSE c - 55
StrTo(t, i, acc) ==
  IF i > Len(t) THEN Bad
  ELSE IF t[i] = 34 THEN Got([k |-> "str", s |-> acc], i + 1)
  ELSE IF t[i] # 92 THEN StrTo(t, i + 1, Append(acc, t[i]))
  ELSE IF t[i + 1] = 120 THEN StrTo(t, i + 4, Append(acc, 16 * HexOf(t[i + 2]) + HexOf(t[i + 3])))
  ELSE IF t[i + 1] \in {34, 92} THEN StrTo(t, i + 2, Append(acc, t[i + 1]))
  ELSE StrTo(t, i + 2, Append(acc, CHOOSE c \in DOMAIN Letter : Letter[c] = t[i + 1]))
RECURSIVE Parse(_, _, _), ParseParts(_, _, _, _, _)
TypeAt(ty, n) == IF ty.k = "tup" THEN ty.e[n] ELSE ty.e
ParseParts(ty, t, i, acc, close) ==
  IF At1(t, i, close) /\ acc = <<>> THEN Got(acc, i + 1)
  ELSE IF ty.k = "tup" /\ Len(acc) = Len(ty.e) THEN Bad
  ELSE LET r == Parse(TypeAt(ty, Len(acc) + 1), t, i) IN
       IF ~r.ok THEN Bad
       ELSE IF At1(t, r.i, Comma) THEN ParseParts(ty, t, r.i + 2, Append(acc, r.v), close)
       ELSE IF At1(t, r.i, close) THEN Got(Append(acc, r.v), r.i + 1) ELSE Bad
Parse(ty, t, i) ==
  CASE ty.k = "bool" -> IF At1(t, i, True4) THEN Got([k |-> "bool", b |-> TRUE], i + 4)
                        ELSE IF At1(t, i, False5) THEN Got([k |-> "bool", b |-> FALSE], i + 5) ELSE Bad
    [] ty.k = "num" -> LET neg == At1(t, i, <<45>>)
                           r == NumTo(t, IF neg THEN i + 1 ELSE i, 0)
                       IN IF ~IsDigit(t, IF neg THEN i + 1 ELSE i) THEN Bad ELSE Got([k |-> "num", neg |-> neg, m |-> FromNat(r.n)], r.i)
    [] ty.k = "str" -> IF At1(t, i, <<34>>) THEN StrTo(t, i + 1, <<>>) ELSE Bad
    [] ty.k = "maybe" -> IF At1(t, i, NothingText) THEN Got([k |-> "nothing"], i + 7)
                         ELSE LET r == Parse(ty.e, t, i) IN IF r.ok THEN Got([k |-> "just", v |-> r.v], r.i) ELSE Bad
    [] OTHER -> LET b == Brackets(ty.k) IN
                IF ~At1(t, i, b[1]) THEN Bad
                ELSE LET r == ParseParts(ty, t, i + 1, <<>>, b[2]) IN
                     IF r.ok THEN Got([k |-> ty.k, c |-> r.v], r.i) ELSE Bad
-------------------------------------------------------------------------------
(* names of types: [k "name", s]  [k "of", s, c]: a template and its arguments    *)
(* [k "pre", s, t]: const, volatile   [k "ref", s, t]   [k "ptr", t]                *)
RECURSIVE TypeName(_), TypeNames(_, _)
TypeNames(c, i) == IF i > Len(c) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o TypeName(c[i]) \o TypeNames(c, i + 1)
TypeName(t) == CASE t.k = "name" -> t.s
                 [] t.k = "of" -> t.s \o "<" \o TypeNames(t.c, 1) \o ">"
                 [] t.k = "pre" -> t.s \o " " \o TypeName(t.t)
                 [] t.k = "ref" -> TypeName(t.t) \o " " \o t.s
                 [] OTHER -> TypeName(t.t) \o (IF t.t.k = "ptr" THEN "*" ELSE " *")
===============================================================================
