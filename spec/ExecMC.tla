-------------------------------- MODULE ExecMC --------------------------------
(* every sequence of up to two steps with every combination of options *)
EXTENDS Exec, TLC
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {S0}
T(k, x, f, n) == [k |-> k, x |-> x, f |-> f, n |-> n]
ab == <<"a", " ", "b", "\n">>
Outs == {T("out", <<"a", "\n">>, "", 0), T("cat", <<>>, "f", 0), T("pipe", ab, "", 0), T("err", <<"a">>, "", 0), T("false", <<>>, "", 0), T("exit", <<>>, "", 3), T("sig", <<>>, "", 9), T("nosuch", <<>>, "", 0)}
        \cup (IF Big THEN {T("big", <<>>, "", 0), T("out", <<"$", "x", ";">>, "", 0), T("exit", <<>>, "", 0), T("sig", <<>>, "", 15)} ELSE {})
Effs == {T("wr", <<"a">>, "f", 0), T("app", <<"b">>, "f", 0), T("rm", <<>>, "f", 0), T("true", <<>>, "", 0)}
Ins == {T("in", <<>>, "g", 0), T("head", <<>>, "g", 2)}
OptS == {<<>>, <<"trim">>, <<"retCode">>, <<"retAll">>, <<"noError">>, <<"noRedir">>, <<"cd">>, <<"cdbad">>, <<"bad">>, <<"retAll", "trim">>, <<"cd", "retAll">>}
        \cup (IF Big THEN {<<"noError", "trim">>, <<"noError", "retAll">>, <<"cd", "noRedir">>, <<"retAll", "retCode">>} ELSE {})
InS == {<<"input">>, <<"inputs">>, <<"input", "retAll">>, <<"cd", "input">>, <<"input", "noError">>, <<"bg", "input">>}
BgS == {<<"bg">>, <<"amp">>, <<"bg", "retAll">>, <<"bg", "cd">>, <<"amp", "noRedir">>, <<"amp", "bg">>}
B(o, c, p, x) == [op |-> o, a |-> <<c, p, x>>]
W(x, f) == T("w", x, f, 0)
Progs == {<<W(<<"echo">>, ""), W(<<"a">>, ""), W(<<"$", "x">>, "")>>, <<W(<<"cat">>, ""), W(<<"f">>, "f")>>, <<W(<<"false">>, "")>>, <<W(<<"true">>, "")>>, <<W(<<"nosuch">>, "")>>}
Dd == <<W(<<"dd">>, ""), W(<<>>, "g")>>
SmallOps(st) ==
  IF st.bg # <<>> THEN {B("go", <<>>, <<>>, <<>>), B("read", <<>>, <<".", "f">>, <<>>), B("exec", <<T("wr", <<"b">>, "f", 0)>>, <<>>, <<>>)}
  ELSE IF st.fs = None THEN {B("put", <<>>, <<".", "f">>, ab)} \cup {B("exec", <<T("wr", <<"a">>, "f", 0)>>, <<"cd">>, <<>>)} ELSE
    {B("exec", <<x>>, o, <<>>) : x \in Outs \cup Effs, o \in OptS} \cup {B("exec", <<x, y>>, o, <<>>) : x \in Effs \cup Outs, y \in Outs \cup {T("true", <<>>, "", 0)}, o \in IF Big THEN OptS ELSE {<<>>, <<"retAll">>, <<"noError">>}}
    \cup {B("exec", c, o, i) : c \in {<<x>> : x \in Ins} \cup {<<T("true", <<>>, "", 0)>>} \cup {<<T("in", <<>>, "g", 0), T("exit", <<>>, "", 3)>>}, o \in InS, i \in {<<>>, <<"a", "b", "\n">>} \cup (IF Big THEN {<<"BIG", "BIG", "a">>} ELSE {})}
    \cup {B("exec", c, o, <<>>) : c \in {<<T("wr", <<"x">>, "f", 0)>>, <<T("rm", <<>>, "f", 0), T("app", <<"y">>, "f", 0)>>}, o \in BgS}
    \cup {B("nosh", c, o, <<>>) : c \in Progs, o \in OptS \cup {<<"bg">>}} \cup {B("nosh", Dd, o, <<"a">>) : o \in InS}
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
