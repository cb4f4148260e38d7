--------------------------------- MODULE PkgMC ---------------------------------
EXTENDS Pkg, TLC
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
P(n, v) == [k |-> "p", n |-> n, v |-> v]
C(k, n, v) == [k |-> k, n |-> n, v |-> v]
D1 == <<"a">>
D2 == <<"b">>
DB == <<"a", "B">>
BA == {<<P("A", 20000)>>, <<P("A", 10203), C("r", "B", 0)>>, <<C("c", "B", 10000), P("A", 10000)>>, <<P("A", 20000), C("x", "", 0)>>}
      \cup (IF Big THEN {<<C("r", "B", 0), P("B", 30000), P("A", 10000)>>, <<C("s", "", 0)>>} ELSE {})
BB == {<<C("d", "", 0)>>, <<P("B", 10000), C("r", "A", 20000)>>} \cup (IF Big THEN {<<P("A", 20000), P("B", 10000)>>, <<C("c", "A", 0)>>} ELSE {})
I0 == {S0}
Ops == <<"setup", "req", "reqv", "reqo", "prov", "provd", "info", "has", "dirs", "write", "remove">>
B(o, a) == LET n == 4 + CHOOSE j \in 1..Len(Ops) : Ops[j] = o IN [op |-> o, a |-> [j \in 1..n |-> IF j <= Len(a) THEN a[j] ELSE 0]]
SmallOps(x) == IF x.lost THEN {} ELSE
  IF x.dirs = <<>> THEN {B("setup", << <<D1, D2>>, <<[d |-> d, n |-> "A", b |-> b], [d |-> DB, n |-> "B", b |-> y]>> >>) : d \in {D1, D2}, b \in BA, y \in BB} ELSE
  {B("req", <<n>>) : n \in {"A", "B"}} \cup {B("reqv", <<"A", v>>) : v \in {20000}} \cup {B("reqo", <<"B", 20000, "", "ok">>), B("reqo", <<"B", 10000, "", "bad">>)}
  \cup {B("prov", <<"B", 10000>>)} \cup {B("info", <<"A">>), B("has", <<"B">>)}
  \cup {B("dirs", <<d>>) : d \in {<<D2>>, <<D2, D1>>}}
  \cup {B("write", <<D2, "A", <<P("A", 50000)>>>>)} \cup {B("remove", <<DB, "B">>)}
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
