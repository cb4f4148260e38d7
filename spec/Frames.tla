--------------------------------- MODULE Frames ---------------------------------
\* The call stack: frames 1..n (1 is the program itself), each with the scope its code runs in.
\* sc: the scopes, [v |-> variables (a function), up |-> the scope around it, 0 for none]; scope 1 holds the globals
\* st: the frames, [s |-> scope, d |-> names declared by the function's text, in order]
EXTENDS Naturals, Integers, Sequences, FiniteSets
None == -1
S0 == [sc |-> <<[v |-> [x \in {} |-> 0], up |-> 0]>>, st |-> <<[s |-> 1, d |-> <<>>, k |-> "main", ev |-> FALSE]>>]
Names == {"x", "y", "z"}
Cur(s) == s.st[Len(s.st)].s
\* the scope where a name used in scope i is found, 0 for nowhere
RECURSIVE Find(_, _, _)
Find(s, i, n) == IF i = 0 THEN 0 ELSE IF n \in DOMAIN s.sc[i].v THEN i ELSE Find(s, s.sc[i].up, n)
Val(s, i, n) == LET j == Find(s, i, n) IN IF j = 0 THEN None ELSE s.sc[j].v[n]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Set(s, i, n, v) == LET j == Find(s, i, n) IN IF j = 0 THEN s ELSE [s EXCEPT !.sc[j].v = Put(@, n, v)]
Decl(s, i, n, v) == [s EXCEPT !.sc[i].v = Put(@, n, v)]
\* the frame a level names: positive is absolute, others relative to the current one; 0 for none
At(s, l) == LET j == IF l > 0 THEN l ELSE Len(s.st) + l IN IF j >= 1 /\ j <= Len(s.st) THEN j ELSE 0

RECURSIVE DeclAll(_, _, _, _)
DeclAll(s, i, q, j) == IF j > Len(q) THEN s ELSE DeclAll(Decl(s, i, q[j][1], q[j][2]), i, q, j + 1)
Enter(s, k, q, l, np) ==
  CASE k \in {"eval", "up"} ->
         LET i == IF k = "eval" THEN Cur(s) ELSE s.st[At(s, l)].s
             t == [s EXCEPT !.st = Append(@, [s |-> i, d |-> <<>>, k |-> k, ev |-> TRUE])]
         IN DeclAll(t, i, q, 1)
    [] OTHER ->
         LET i == Len(s.sc) + 1
             t == [s EXCEPT !.sc = Append(@, [v |-> [x \in {} |-> 0], up |-> IF k = "top" THEN 1 ELSE Cur(s)]),
                            !.st = Append(@, [s |-> i, d |-> [j \in 1..(Len(q) - np) |-> q[j + np][1]], k |-> k, ev |-> k # "top" /\ s.st[Len(s.st)].ev])]
         IN DeclAll(t, i, q, 1)
R(s, r) == {[s |-> s, r |-> r]}
B(b) == IF b THEN 1 ELSE 0
\* results: [st |-> "ok" or "e", v |-> a number, m |-> <<>> or a sequence of <<name, value>> ]
Res(o, v) == [o |-> o, v |-> v, m |-> <<>>]
Err == Res("e", 0)
Pairs(m) == [j \in 1..Cardinality(DOMAIN m) |-> LET n == CHOOSE n \in DOMAIN m : Cardinality({x \in DOMAIN m : x = n \/ (n = "y" /\ x = "x") \/ (n = "z" /\ x \in {"x", "y"})}) = j IN <<n, m[n]>>]
Do(s, e) ==
  LET a == e.a IN
  CASE e.op = "call" -> IF a[1] = "up" /\ At(s, a[3]) = 0 THEN {} ELSE R(Enter(s, a[1], a[2], a[3], a[4]), Res("ok", 0))
    [] e.op = "ret" -> IF Len(s.st) = 1 THEN {} ELSE R([s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)], Res("ok", 0))
    [] e.op = "read" -> R(s, Res("ok", Val(s, Cur(s), a[1])))
    [] e.op = "set" -> R(Set(s, Cur(s), a[1], a[2]), Res("ok", B(Find(s, Cur(s), a[1]) > 0)))
    [] e.op = "value" -> LET f == At(s, a[2]) IN
         R(s, IF f = 0 \/ Find(s, s.st[f].s, a[1]) = 0 THEN Err ELSE Res("ok", Val(s, s.st[f].s, a[1])))
    [] e.op = "uread" -> LET f == At(s, a[2]) IN R(s, IF f = 0 THEN Err ELSE Res("ok", Val(s, s.st[f].s, a[1])))
    [] e.op = "uset" -> LET f == At(s, a[3]) IN
         IF f = 0 THEN R(s, Err) ELSE R(Set(s, s.st[f].s, a[1], a[2]), Res("ok", B(Find(s, s.st[f].s, a[1]) > 0)))
    [] e.op = "udecl" -> LET f == At(s, a[3]) IN IF f = 0 THEN R(s, Err) ELSE R(Decl(s, s.st[f].s, a[1], a[2]), Res("ok", 0))
    \* code run at a level is itself one level deeper than the code that runs it
    [] e.op = "ulevel" -> R(s, IF At(s, a[1]) = 0 THEN Err ELSE Res("ok", Len(s.st) + 1))
    [] e.op = "level" -> R(s, Res("ok", Len(s.st)))
    [] e.op = "info" -> LET f == At(s, a[1]) IN
         R(s, IF f = 0 THEN Err ELSE [o |-> "ok", v |-> f, m |-> [j \in 1..Len(s.st[f].d) |-> <<s.st[f].d[j], 0>>]])
         \* (a function that is part of evaluated text may make its variables only as it comes to them)
         \cup (IF f > 0 /\ s.st[f].ev THEN R(s, Res("ok", f)) ELSE {})
    \* (at the outermost level Info.locals shows everything global: not compared)
    [] e.op = "locals" -> R(s, [o |-> "ok", v |-> 0, m |-> IF Cur(s) = 1 THEN <<>> ELSE Pairs(s.sc[Cur(s)].v)])
    [] OTHER -> {}
Inv(s) == /\ Len(s.st) >= 1 /\ s.st[1].s = 1
          /\ \A f \in 1..Len(s.st) : s.st[f].s \in 1..Len(s.sc)
          /\ \A i \in 1..Len(s.sc) : s.sc[i].up < i
\* one operation writes to at most one scope that exists, unless it enters code that declares several names there
StepInv(s, e, u) == /\ (e.op \notin {"call", "ret"} => u.st = s.st)
                    /\ (e.op \in {"read", "value", "uread", "level", "ulevel", "info", "locals", "ret"} => u.sc = s.sc)
                    /\ Cardinality({i \in 1..Len(s.sc) : u.sc[i] # s.sc[i]}) <= 1
=============================================================================
