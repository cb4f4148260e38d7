--------------------------------- MODULE ConfMC ---------------------------------
EXTENDS Conf
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
F0 == [p \in Paths |-> Zero(Decl(p).kind)]
I0 == {[at |-> [i \in {"M"} |-> F0], fresh |-> [plain |-> F0, safe |-> [F0 EXCEPT ![<<"isSafe">>] = [s |-> "true", l |-> <<>>]]]]}
V(t, x, l) == [t |-> t, s |-> x, l |-> l]
It(p, v) == [p |-> p, v |-> v]
Yes1 == V("bool", "true", <<>>)
Num(x) == V("num", x, <<>>)
Str(x) == V("str", x, <<>>)
Nul == V("null", "null", <<>>)
B1 == It(<<"asserts">>, Yes1)
B2 == It(<<"busyInterval">>, Num("5"))
L1 == It(<<"log">>, V("bobj", "", <<"+", "parse", "-", "info">>))
L2 == It(<<"log">>, V("barr", "=", <<"+", "parse", "+", "assert">>))
L3 == It(<<"log">>, V("bstr", "", <<"+", "debug", "-", "parse">>))
G1 == It(<<"logOpts", "time">>, Yes1)
Sets == {<<B1>>, <<L1>>, <<B1, L2>>, <<L3, G1>>, <<It(<<"logOpts">>, Nul)>>, <<It(<<"subOpts">>, Nul), B2>>,
         <<B2, It(<<"zork">>, Num("1"))>>, <<B1, It(<<"name">>, Num("5"))>>, <<G1, It(<<"logOpts", "zork">>, Num("1"))>>,
         <<It(<<"maxDumpStack">>, Num("20")), It(<<"name">>, Str("\"n1\""))>>, <<B1, It(<<"isSafe">>, Yes1)>>,
         <<It(<<"asserts">>, V("bool", "false", <<>>)), It(<<"retValue">>, Num("1"))>>}
        \cup (IF Big THEN {<<It(<<"asserts">>, V("bool", "false", <<>>))>>, <<It(<<"name">>, Nul)>>, <<It(<<"log">>, V("bstr", "=", <<"+", "zork">>))>>,
                           <<It(<<"maxDumpStack">>, Num("-3"))>>, <<It(<<"pkgDirs">>, V("arr", "[\"a\"]", <<>>)), It(<<"udata">>, V("obj", "{\"k\": 1}", <<>>))>>,
                           <<It(<<"subOpts", "istty">>, Yes1), G1>>, <<It(<<"assertMode">>, Str("\"log\""))>>, <<It(<<"assertMode">>, Str("\"zork\"")), B1>>}
              ELSE {})
News == {<<>>, <<B1, B2>>, <<It(<<"maxOpCnt">>, Num("2147483647")), L3>>, <<It(<<"zork">>, Num("1"))>>, <<It(<<"retValue">>, Num("1"))>>, <<B1, It(<<"name">>, Num("5"))>>}
SmallOps(x) ==
  {[op |-> "set", a |-> <<i, q, f>>] : q \in Sets, f \in {"in", "out"}, i \in {"M", "S"} \cap DOMAIN x.at}
  \cup {[op |-> "set", a |-> <<i, q, f>>] : q \in {<<B1>>, <<L1>>}, f \in {"in", "out"}, i \in {"A", "N"} \cap DOMAIN x.at}
  \cup {[op |-> "new", a |-> <<i, q>>] : q \in News, i \in {"A", "S", "N"} \ DOMAIN x.at}
  \cup {[op |-> "get", a |-> <<i, p, f, 0>>] : i \in DOMAIN x.at, f \in {"in", "out"}, p \in {<<"asserts">>, <<"log">>, <<"logOpts", "time">>, <<"zork">>, <<"logOpts", "zork">>}}
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
