--------------------------------- MODULE LimMC ---------------------------------
EXTENDS Lim, TLC
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {S0}
Ops == <<"new", "get", "kget", "set", "kset", "depth", "arr", "inc", "req", "objs">>
\* (padded to a length of its own per operation, as TLC can not compare arguments of different types)
B(o, a) == LET n == 4 + CHOOSE j \in 1..Len(Ops) : Ops[j] = o IN [op |-> o, a |-> [j \in 1..n |-> IF j <= Len(a) THEN a[j] ELSE 0]]
L1 == << <<"maxDepth", 40>>, <<"maxArrayList", 100>>, <<"maxIncDepth", 4>>, <<"maxInterpDepth", 2>>, <<"maxUserObjs", 3>> >>
L2 == << <<"maxDepth", 300>>, <<"maxInterpDepth", 3>> >>
SmallOps(x) ==
  UNION {LET m == x.ch[j + 1] IN
    {B("new", <<j, l, f>>) : l \in {L1, L2}, f \in {TRUE, FALSE}}
    \cup {B("get", <<j, k>>) : k \in {"maxDepth", "maxArrayList", "maxInterpDepth"}}
    \cup {B("kget", <<j, "maxUserObjs">>)}
    \cup {B("set", <<j, "maxDepth", 60>>), B("set", <<j, "maxUserObjs", 2>>), B("kset", <<j, "maxIncDepth", 6>>)}
    \cup (IF Big \/ j > 0 THEN {B("depth", <<j, "plain", v>>) : v \in {m.lim.maxDepth + 1}} \cup {B("objs", <<j, 2>>), B("inc", <<j, m.lim.maxIncDepth + 1>>), B("req", <<j, m.lim.maxIncDepth + 3>>)} ELSE {})
    \cup (IF m.lim.maxArrayList < 1000 THEN {B("arr", <<j, "push", m.lim.maxArrayList>>)} ELSE {})
    : j \in 0..(Len(x.ch) - 1)}
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
