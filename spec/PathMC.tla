--------------------------------- MODULE PathMC ---------------------------------
EXTENDS Path, TLC
CONSTANTS MaxDepth, Emit, N
VARIABLES s, hist
A == <<"va", "">>
B == <<"vb", ".x">>
L == <<"vl", "">>
M == <<"vm", ".">>
\* (the names of the folders above the base are filled in by the driver)
P1 == <<"/1", "">>
Base == <<P1, <<"/2", "">>, <<"/3", "">> >>
T == {[p |-> SubSeq(Base, 1, n), k |-> "d", t |-> <<>>] : n \in 1..3} \cup {
      [p |-> Base \o <<A>>, k |-> "d", t |-> <<>>], [p |-> Base \o <<A, B>>, k |-> "f", t |-> <<>>],
      [p |-> Base \o <<A, A>>, k |-> "d", t |-> <<>>],
      [p |-> Base \o <<L>>, k |-> "l", t |-> <<A, A>>], [p |-> Base \o <<A, L>>, k |-> "l", t |-> <<DotDot, L>>],
      [p |-> Base \o <<A, M>>, k |-> "l", t |-> <<M>>]}
I0 == {S1(T, Base)}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE LET q == Seqs(n - 1) IN q \cup {Append(x, c) : x \in {x \in q : Len(x) = n - 1}, c \in {A, B, L, M, Nil, Dot, DotDot}}
Paths == {<<x>> : x \in {A, B, L, M, Dot, DotDot}} \cup {q \in Seqs(N) : Len(q) > 1} 
AbsP == {<<Nil>> \o Base \o q : q \in {x \in Seqs(N - 1) : x # <<>>}}
Ops(x) == {[op |-> "facts", a |-> <<q>>] : q \in Paths \cup AbsP} \cup {[op |-> "chdir", a |-> <<q, 0>>] : q \in {<<A>>, <<L>>, <<DotDot>>, <<A, L>>}}
          \cup {[op |-> "join", a |-> <<q, r, 0>>] : q \in {<<A>>, <<L, Nil>>, <<DotDot, Dot>>, <<Nil>> \o Base}, r \in {<<A>>, <<DotDot, L>>, <<B>>, <<Nil>> \o Base \o <<L>>}}
          \cup {[op |-> "readlink", a |-> <<q, 0, 0, 0>>] : q \in {<<L>>, <<A, M>>, <<A, L>>, <<A>>}}
SmallOps(x) == Ops(x)
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
