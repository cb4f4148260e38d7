-------------------------------- MODULE SubsMC --------------------------------
EXTENDS Subs, TLC
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {S0}
Lits == {Arr(<<Num(1)>>)}
Paths(x) == {p \in {<<>>, <<1>>, <<1, 1>>} : Walk(x, 1, p) # <<>>}
\* (padded to a length of its own per operation, as TLC can not compare arguments of different types)
Ops == <<"new", "set", "mut", "acall", "hold", "hcall", "pull", "unalias", "kill", "alias", "call">>
B(p, o, a) == LET n == 6 + CHOOSE j \in 1..Len(Ops) : Ops[j] = o IN [op |-> o, a |-> [j \in 1..n |-> IF j = 1 THEN p ELSE IF j <= Len(a) + 1 THEN a[j - 1] ELSE 0]]
Vx == [k |-> "v", v |-> "x"]
SmallOps(x) ==
  IF Len(x.it) = 1 THEN {B(<<>>, "new", <<1>>)}
  ELSE UNION {
    LET i == Walk(x, 1, p)[Len(p) + 1]
        has == x.it[i].kid[1] # 0
    IN {B(p, "set", <<"x", l>>) : l \in Lits}
       \cup {B(p, "mut", <<"x", 5>>)}
       \cup (IF Len(x.it) < 3 /\ p # <<>> THEN {B(p, "new", <<1>>)} ELSE {})
       \cup (IF x.it[i].al["up"].on THEN {B(p, "acall", <<"up", <<Vx>>>>), B(p, "hold", <<"up">>)} ELSE {})
       \cup (IF x.it[i].held # 0 THEN {B(p, "hcall", <<<<>>>>)} ELSE {})
       \cup (IF has THEN {B(p, "pull", <<1, "x", "x">>), B(p, "unalias", <<1, "up">>), B(p, "kill", <<1>>)}
                    \cup {B(p, "alias", <<1, "up", f, r>>) : f \in IF Big THEN Funs ELSE {"fset", "fmut", "fup", "fun", "fre", "fcall", "fkill"}, r \in {<<>>, <<Num(3)>>}}
                    \cup {B(p, "call", <<1, f, <<Vx>>, w>>) : f \in {"fset", "fmut", "fup"}, w \in {TRUE, FALSE}}
             ELSE {}) : p \in Paths(x)}
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
