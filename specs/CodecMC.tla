------------------------------- MODULE CodecMC -------------------------------
(* Every byte string up to a length over a few bytes, grown byte by byte, read  *)
(* as every type: what is decoded canonically encodes to exactly the bytes      *)
(* read (so different values have different encodings), encoding and decoding   *)
(* again gives the value, nothing behind the value matters, and a truncated     *)
(* canonical encoding is refused. Random states use shortened words here: a     *)
(* fixed prefix stands for the key.                                             *)
EXTENDS Codec
CONSTANTS Bytes, MaxLen
VARIABLES b, t
Key0 == [j \in 1..32 |-> 7]
Types == {<<"le", 1>>, <<"le", 2>>, <<"var", 8>>, <<"var", 16>>, <<"var", 64>>, <<"str", 0>>, <<"vec", 8>>, <<"vec", 64>>,
          <<"rnd", 0>>, <<"rep", 0>>, <<"map", 0>>}
(* prefixes that bring the interesting part of a long encoding within reach     *)
Prefix(ty) == CASE ty = "rnd" -> {Key0, Key0 \o <<129, 1>>}
                [] ty = "rep" -> {Key0 \o <<1, 0, 1, 9, 0, 0, 0>>, Key0 \o <<1, 0, 1, 9, 0>>}
                [] ty = "map" -> {<<>>, <<1, 1, 65>> \o Key0 \o <<0, 0, 0, 0, 0, 0, 0>>,
                                  <<2, 0>> \o Key0 \o <<0, 0, 0, 0, 0, 0, 0, 0>>}
                [] OTHER -> {<<>>}
Init == b = <<>> /\ t \in {<<ty[1], ty[2], p>> : ty \in Types, p \in UNION {Prefix(x[1]) : x \in Types}}
        /\ t[3] \in Prefix(t[1])
Next == Len(b) < MaxLen /\ \E x \in Bytes : b' = Append(b, x) /\ UNCHANGED t
Spec == Init /\ [][Next]_<<b, t>>
In == t[3] \o b
D == Dec(t[1], t[2], 0, In)
Faithful == LET d == D IN
  d.ok => /\ d.i <= Len(In) + 1
          /\ LET e == Enc(t[1], t[2], d.v) IN
             /\ Dec(t[1], t[2], 0, e).ok /\ Dec(t[1], t[2], 0, e).v = d.v
             /\ d.c => e = SubSeq(In, 1, d.i - 1)
             /\ Len(e) <= d.i - 1
Local == LET d == D IN \A x \in Bytes : d.ok => Dec(t[1], t[2], 0, Append(In, x)) = d
Refuses == LET d == D IN
  (d.ok /\ d.i = Len(In) + 1 /\ In # <<>>) => ~Dec(t[1], t[2], 0, SubSeq(In, 1, Len(In) - 1)).ok
(* text                                                                         *)
Text == t = <<"le", 1, <<>>>> =>
  LET x == ToText(b) IN
  /\ FromText(x) = Ok(b, Len(x) + 1, TRUE)
  /\ \A i \in 1..Len(x) : DigitOf(x[i]) < 64
  /\ Len(b) = 3 => \A i \in 1..Len(x) : ~FromText([x EXCEPT ![i] = 61]).ok /\ FromText([x EXCEPT ![i] = IF @ = 65 THEN 66 ELSE 65]).v # b
Digits == \A d \in 0..63 : DigitOf(Alphabet[d]) = d
===============================================================================
