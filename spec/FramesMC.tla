-------------------------------- MODULE FramesMC --------------------------------
EXTENDS Frames, TLC
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {S0}
Ops == <<"call", "ret", "read", "set", "value", "uread", "uset", "udecl", "ulevel", "level", "info", "locals">>
P(o, a) == LET n == 4 + CHOOSE j \in 1..Len(Ops) : Ops[j] = o IN [op |-> o, a |-> [j \in 1..n |-> IF j <= Len(a) THEN a[j] ELSE 0]]
Lv(x) == {-1, 0, 1, 2} \cup (IF Big THEN {-2, 3} ELSE {-3})
SmallOps(x) == LET v == 10 * Len(x.sc) + Len(x.st) IN
  {P("call", <<k, q, 0, np>>) : np \in (IF Big THEN {0, 1} ELSE {0}), k \in {"top", "inner", "eval"}, q \in {<< <<"x", v>> >>, << <<"y", v>> >>}}
  \cup {P("call", <<"up", << <<"x", v>> >>, l, 0>>) : l \in {l \in {1, -1} : At(x, l) > 0}}
  \cup (IF Len(x.st) > 1 THEN {P("ret", <<>>)} ELSE {})
  \cup {P("read", <<"x">>), P("set", <<"x", v + 5>>), P("level", <<>>), P("locals", <<>>)}
  \cup UNION {{P("value", <<"x", l>>), P("uread", <<"x", l>>), P("uset", <<"x", v + 7, l>>), P("udecl", <<"x", v + 8, l>>)} : l \in Lv(x)}
  \cup {P("info", <<l>>) : l \in {0, -1, 1}} \cup {P("ulevel", <<-1>>)}
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
