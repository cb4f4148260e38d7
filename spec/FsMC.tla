-------------------------------- MODULE FsMC --------------------------------
EXTENDS Fs
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {Init0}
Canon(st) == [st EXCEPT !.ino = [k \in 1..Len(st.ino) |-> IF \E q \in DOMAIN st.n : st.n[q] = k THEN st.ino[k] ELSE Dir0]]
P(c) == [abs |-> FALSE, c |-> c]
Ps == {P(<<"a">>), P(<<"b">>), P(<<"a", "b">>)} \cup (IF Big THEN {P(<<"b", "..", "a">>), P(<<"a", "..", "b">>)} ELSE {})
O0 == [recurse |-> FALSE, maxDepth |-> 0, types |-> <<>>, noTypes |-> <<>>, filter |-> "", dirFilter |-> "", prefix |-> FALSE, tails |-> FALSE, throw |-> FALSE, count |-> FALSE, limit |-> 0]
SmallOps(st) ==
  {[op |-> "write", a |-> <<p, x, "">>] : p \in Ps, x \in {<<"61">>}} \cup
  {[op |-> "mkdir", a |-> <<p, f>>] : p \in Ps, f \in BOOLEAN} \cup
  {[op |-> o, a |-> <<p, q, f>>] : o \in {"copy", "rename", "link"}, p \in Ps, q \in Ps, f \in BOOLEAN} \cup
  {[op |-> "remove", a |-> <<p, f>>] : p \in Ps, f \in BOOLEAN} \cup
  {[op |-> o, a |-> <<p>>] : o \in {"read", "exists", "lstat", "readlink"}, p \in Ps}
Do(st, e) == FsDo(st, e)
Inv(st) == FsInv(st)
StepInv(st, e, y) == FsStep(st, e, y)
INSTANCE Explore WITH InitSet <- I0
=============================================================================
