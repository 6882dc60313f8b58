-------------------------------- MODULE ShowMC --------------------------------
EXTENDS Show, FiniteSets
CONSTANTS Bytes, MaxStr, MaxList, Nums
B(b) == [k |-> "bool", b |-> b]
N(n) == [k |-> "num", neg |-> n < 0, m |-> FromNat(IF n < 0 THEN 0 - n ELSE n)]
St(s) == [k |-> "str", s |-> s]
Bools == {B(TRUE), B(FALSE)}
Numbers == {N(n) : n \in Nums} \cup {N(0 - n) : n \in Nums}
UpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
Strings == {St(s) : s \in UpTo(Bytes, MaxStr)}
FewStrings == {St(s) : s \in UpTo({34, 44, 92, 10}, 2)}
C(k, S, n) == {[k |-> k, c |-> c] : c \in UpTo(S, n)}
Some(S) == {[k |-> "just", v |-> v] : v \in S} \cup {[k |-> "nothing"]}
Tup2(S, T) == {[k |-> "tup", c |-> <<a, b>>] : a \in S, b \in T}
TBool == [k |-> "bool"]
TNum == [k |-> "num"]
TStr == [k |-> "str"]
Of(k, e) == [k |-> k, e |-> e]
(* types and their values                                                       *)
Typed == {<<TBool, Bools>>, <<TNum, Numbers>>, <<TStr, Strings>>,
          <<Of("list", TNum), C("list", Numbers, MaxList)>>,
          <<Of("wide", TNum), C("wide", Numbers, MaxList)>>,
          <<Of("list", TStr), C("list", FewStrings, MaxList)>>,
          <<Of("set", Of("maybe", TStr)), C("set", Some(FewStrings), 2)>>,
          <<Of("tup", <<TStr, TBool>>), Tup2(FewStrings, Bools)>>,
          <<Of("tup", <<>>), {[k |-> "tup", c |-> <<>>]}>>,
          <<Of("list", Of("list", TBool)), C("list", C("list", Bools, 2), 2)>>,
          <<Of("list", Of("tup", <<TNum, Of("set", TBool)>>)), C("list", Tup2({N(0), N(-12), N(7)}, C("set", Bools, 2)), 2)>>,
          <<Of("maybe", Of("list", Of("maybe", TNum))), Some(C("list", Some({N(5), N(-5)}), 2))>>}
VARIABLE ty
vars == <<svars, ty>>
Init == \E p \in Typed : \E v \in p[2] : ty = p[1] /\ SInit(v, "fmt")
Next == (Write \/ Expand) /\ UNCHANGED ty
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* at every moment what is written and what is left make up the text            *)
Whole == ShownItems(todo, 1, out) = Shown(value)
(* the text and the type determine the value                                    *)
Faithful == Done => LET r == Parse(ty, out, 1) IN r.ok /\ r.v = value /\ r.i = Len(out) + 1
Format == [][fmt' = fmt]_svars
Ends == <>Done
Printable == \A i \in 1..Len(out) : out[i] \in 32..126
(* all bytes                                                                    *)
ASSUME \A a \in 0..255 : LET t == Shown(St(<<a>>)) IN /\ \A i \in 1..Len(t) : t[i] \in 32..126
                                                     /\ Parse(TStr, t, 1).v = St(<<a>>)
ASSUME \A a, b \in 0..255 : Parse(TStr, Shown(St(<<a, b>>)), 1).v = St(<<a, b>>)
ASSUME Number(Max64, 10) = <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
ASSUME Number(Max64, 16) = [i \in 1..16 |-> 102]
===============================================================================
