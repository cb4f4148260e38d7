-------------------------------- MODULE TypedMC --------------------------------
EXTENDS Typed, TLC
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {S0}
P(ty, d) == [ty |-> ty, d |-> d]
Ps == {P(<<"number">>, ""), P(<<>>, ""), P(<<"any">>, ""), P(<<"string", "null">>, "n5"), P(<<>>, "s1"), P(<<"array", "object">>, "void"), P(<<"undefined">>, "")}
Decls == {<<p>> : p \in Ps} \cup {<<p, q>> : p \in Ps, q \in {x \in Ps : x.d # ""}}
Rets == IF Big THEN {<<>>, <<"number">>, <<"void">>, <<"string", "void">>} ELSE {<<>>, <<"number">>}
Args == IF Big THEN Ids ELSE {"n5", "s1", "o1", "z", "u", "f"}
SmallOps(x) ==
  IF ~x.fn[1].on THEN {[op |-> "def", a |-> <<1, d, v, r>>] : d \in Decls, v \in BOOLEAN, r \in Rets}
  ELSE {[op |-> "call", a |-> <<1, "direct", q, "n5", <<>>>>] : q \in {<<>>} \cup {<<y>> : y \in Args} \cup {<<y, y2>> : y \in Args, y2 \in Args}}
       \cup {[op |-> "call", a |-> <<1, "direct", <<y>>, v, <<>>>>] : y \in {"n5", "s1", "o1"}, v \in Args}
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
