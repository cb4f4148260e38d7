------------------------------- MODULE SafeMC -------------------------------
EXTENDS Safe
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {S0}
Canon(x) == [x EXCEPT !.f.ino = [k \in 1..Len(x.f.ino) |-> IF \E q \in DOMAIN x.f.n : x.f.n[q] = k THEN x.f.ino[k] ELSE Dir0]]
P(c) == [abs |-> FALSE, c |-> c]
W == Top \o <<"w">>
G0 == [recurse |-> TRUE, maxDepth |-> 2, types |-> <<>>, noTypes |-> <<>>, filter |-> "", dirFilter |-> "", prefix |-> FALSE, tails |-> FALSE, throw |-> FALSE, count |-> FALSE, limit |-> 0]
Ps == {P(<<"b">>), P(<<"w", "a">>), P(<<"w", "a", "b">>)} \cup (IF Big THEN {P(<<"w", "..", "b">>), P(<<"a">>)} ELSE {})
SmallOps(x) ==
  IF ~x.on THEN
    {[op |-> "write", a |-> <<P(<<"b">>), <<"3b">>, "">>], [op |-> "mkdir", a |-> <<P(<<"w", "a">>), FALSE>>], [op |-> "link", a |-> <<P(<<"w">>), P(<<"b">>), FALSE>>],
     [op |-> "link", a |-> <<P(<<"..">>), P(<<"w", "a">>), FALSE>>], [op |-> "link", a |-> <<P(<<"..", "b">>), P(<<"w", "a">>), FALSE>>],
     [op |-> "link", a |-> <<P(<<"b">>), P(<<"w", "a">>), TRUE>>],
     [op |-> "grant", a |-> <<<<W>>, <<W>>, FALSE>>], [op |-> "grant", a |-> <<<<Top>>, <<W>>, FALSE>>]}
  ELSE {[op |-> "write", a |-> <<p, <<"0a">>, "">>] : p \in Ps} \cup {[op |-> "mkdir", a |-> <<p, TRUE>>] : p \in Ps} \cup {[op |-> "remove", a |-> <<p, TRUE>>] : p \in Ps}
    \cup {[op |-> o, a |-> <<p>>] : o \in {"read", "exists", "chdir", "readlink"}, p \in Ps}
    \cup {[op |-> o, a |-> <<p, q, TRUE>>] : o \in {"copy", "rename", "link"}, p \in Ps, q \in Ps}
    \cup {[op |-> "link", a |-> <<p, q, FALSE>>] : p \in {P(<<"..">>)}, q \in Ps}
    \cup {[op |-> "glob", a |-> <<p, <<<<"*">>>>, G0>>] : p \in {P(<<"w">>), P(<<>>)}}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
