------------------------------- MODULE ChanMC -------------------------------
EXTENDS Chan
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {Init0}
Canon(st) == st
X == <<"61">>  L == <<"62", "0a">>
\* one channel on one file, and a second reading what the first has flushed
SmallOps(st) ==
  LET c == st.ch[1]
      room == Len(st.fs["p"].d) <= 3
      opens == {[op |-> "open", a |-> <<1, "p", m, "new", m>>] : m \in Modes \cup {"x"}}
  IN
  IF st = Init0 THEN opens \cup {[op |-> "mkfile", a |-> <<"p", x>>] : x \in {<<>>, <<"61", "0a", "62">>}}
  ELSE IF c.m = "" THEN opens \cup {[op |-> "open", a |-> <<1, "p", "r+", "re", "r+">>], [op |-> "read", a |-> <<1, -1>>], [op |-> "tell", a |-> <<1>>], [op |-> "content", a |-> <<"p">>]}
  ELSE {[op |-> "read", a |-> <<1, n>>] : n \in {-1, 1, 2}} \cup {[op |-> o, a |-> <<1>>] : o \in {"gets", "tell", "eof", "flush", "close"}} \cup
       {[op |-> "seek", a |-> <<1, n, w>>] : n \in {-1, 0, 1} \cup (IF Big THEN {2} ELSE {}), w \in {"set", "cur", "end"}} \cup
       (IF room THEN {[op |-> "write", a |-> <<1, x>>] : x \in {X, L}} \cup {[op |-> "puts", a |-> <<1, X>>]} \cup {[op |-> "trunc", a |-> <<1, n>>] : n \in {0, 1, 3}} ELSE {}) \cup
       (IF c.late THEN {} ELSE {[op |-> "content", a |-> <<"p">>]})
INSTANCE Explore WITH InitSet <- I0
=============================================================================
