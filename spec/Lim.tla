---------------------------------- MODULE Lim ----------------------------------
(* A chain of interpreters, each the child of the one before, with limits.  Operations run code in one of them that tries to go
   beyond a limit; the specification says when it has to be let through, when it has to be refused, and which limits a child has.
   What a call or an array element costs is not specified to the last unit: between what any counting allows and what every
   counting refuses both outcomes are accepted, but never more than the limit, and a refusal leaves everything else working.      *)
EXTENDS Integers, Sequences, FiniteSets
Names == {"maxDepth", "maxArrayList", "maxIncDepth", "maxInterpDepth", "maxUserObjs", "maxOpCnt"}
Cap == 200                                       \* no interpreter may be deeper than this, whatever its options say
\* lo, hi: the user objects counted so far are between them; spent: operations done at least, at most
Node(l, safe) == [lim |-> l, safe |-> safe, lo |-> 0, hi |-> 0, least |-> 0, most |-> 0]
Root == Node([maxDepth |-> Cap, maxArrayList |-> 100000, maxIncDepth |-> 50, maxInterpDepth |-> 10, maxUserObjs |-> 0, maxOpCnt |-> 0], FALSE)
S0 == [ch |-> <<Root>>]
Res(s, r) == [s |-> s, r |-> r]
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a < b THEN b ELSE a
\* the limits of a child of p that asks for o, a sequence of <<name, value>>
Asked(o, k, d) == IF \E j \in 1..Len(o) : o[j][1] = k THEN LET j == CHOOSE j \in 1..Len(o) : o[j][1] = k IN o[j][2] ELSE d
Kid(p, o, safe) ==
  LET l == [k \in Names |-> Asked(o, k, IF k = "maxInterpDepth" THEN p.lim[k] ELSE Root.lim[k])]
  IN IF p.safe THEN Node(p.lim, TRUE)            \* nothing a script may not do itself may be done by its child
     ELSE Node([l EXCEPT !.maxDepth = MinOf(@, Cap)], safe)
Try(n, least, most, lim, room) ==                \* results of trying to do n: reached with ok, or the number reached when refused
  (IF n * least <= lim THEN {<<"ok", n>>} ELSE {}) \cup
  (IF n * most + room > lim THEN {<<"e", j>> : j \in 0..MinOf(n, lim)} ELSE {})
Do(s, e) ==
  LET a == e.a
      i == a[1] + 1                              \* which interpreter: 0 is the root
      n == s.ch[i]
      set(x) == [s EXCEPT !.ch[i] = x]
      Inner == i > 2 /\ s.ch[i - 1].safe         \* the files needed may be out of reach of a child of a safe interpreter
      cut == [s EXCEPT !.ch = SubSeq(@, 1, i)]
  IN IF i > Len(s.ch) THEN {Res(s, <<"gone", 0>>)}
     ELSE
  CASE e.op = "new" ->        \* a[2]: limits asked for, a[3]: safe
        LET c == [cut EXCEPT !.ch[i].hi = @ + 1]
            no == Res(c, <<"e", 0>>)
            yes == Res([c EXCEPT !.ch = Append([@ EXCEPT ![i].lo = @ + 1], Kid(n, a[2], a[3]))], <<"ok", 0>>)
            full == n.lim.maxUserObjs > 0
        IN IF i > n.lim.maxInterpDepth THEN {no}
           ELSE (IF full /\ n.lo > n.lim.maxUserObjs THEN {} ELSE {yes}) \cup (IF full /\ n.hi >= n.lim.maxUserObjs THEN {no} ELSE {})
    [] e.op = "get" -> {Res(s, <<"ok", n.lim[a[2]]>>)}
    [] e.op = "kget" -> IF i = Len(s.ch) THEN {Res(s, <<"gone", 0>>)} ELSE {Res(s, <<"ok", s.ch[i + 1].lim[a[2]]>>)}
    [] e.op = "set" ->
        IF n.safe \/ a[2] = "maxOpCnt" THEN {Res(s, <<"e", 0>>)}
        ELSE {Res(set([n EXCEPT !.lim[a[2]] = a[3]]), <<"ok", 0>>)}
    [] e.op = "kset" ->       \* the parent sets it
        IF i = Len(s.ch) THEN {Res(s, <<"gone", 0>>)}
        ELSE IF s.ch[i + 1].safe \/ a[2] = "maxOpCnt" THEN {Res(s, <<"e", 0>>)}
        ELSE {Res([s EXCEPT !.ch[i + 1].lim[a[2]] = a[3]], <<"ok", 0>>)}
    [] e.op = "depth" ->      \* a[2]: form, a[3]: how deep
        {Res(s, r) : r \in Try(a[3], 1, 4, n.lim.maxDepth, 20) \cup
                           (IF a[2] = "new" /\ n.lim.maxUserObjs > 0 THEN {<<"e", j>> : j \in 0..a[3]} ELSE {})}
    [] e.op = "arr" ->        \* an array of a[3] elements made in the way a[2]; when refused, the number of elements it has
        \* (an element set beyond the limit is an ordinary property, which is no element)
        {Res(s, r) : r \in (IF a[3] <= n.lim.maxArrayList THEN {<<"ok", a[3]>>} ELSE IF a[2] = "last" THEN {<<"ok", 0>>} ELSE IF a[2] = "set" THEN {<<"ok", n.lim.maxArrayList>>} ELSE {}) \cup
                           (IF a[3] > n.lim.maxArrayList - 40 THEN {<<"e", j>> : j \in 0..MaxOf(0, MinOf(a[3], n.lim.maxArrayList))} ELSE {})}
    [] e.op = "inc" -> {Res(s, r) : r \in Try(a[2], 1, 1, MinOf(n.lim.maxIncDepth, 1000), 2) \cup
                               (IF 2 * a[2] + 20 > n.lim.maxDepth THEN {<<"e", j>> : j \in 0..MinOf(a[2], n.lim.maxIncDepth)} ELSE {}) \cup (IF Inner THEN {<<"e", 0>>} ELSE {})}
    [] e.op = "req" ->        \* packages requiring each other, a[2] deep (a level more or less than for files read)
        LET m == MinOf(n.lim.maxIncDepth, 1000)
        IN {Res(s, r) : r \in (IF a[2] <= m + 2 THEN {<<"ok", a[2]>>} ELSE {}) \cup
                               (IF a[2] + 2 > m \/ 2 * a[2] + 20 > n.lim.maxDepth THEN {<<"e", j>> : j \in 0..MinOf(a[2], m + 2)} ELSE {}) \cup (IF Inner THEN {<<"e", 0>>} ELSE {})}
    [] e.op = "objs" ->
        LET m == n.lim.maxUserObjs
            some(k) == set([n EXCEPT !.lo = @ + k, !.hi = @ + k + 1])
            all == set([n EXCEPT !.lo = @ + a[2], !.hi = @ + a[2]])
        IN (IF Inner THEN {Res(some(0), <<"e", 0>>)} ELSE {}) \cup
           IF m = 0 THEN {Res(all, <<"ok", a[2]>>)}
           ELSE (IF n.lo + a[2] <= m + 1 THEN {Res(all, <<"ok", a[2]>>)} ELSE {}) \cup
                (IF n.hi + a[2] > m THEN {Res(some(k), <<"e", k>>) : k \in {k \in 0..a[2] : n.lo + k <= MaxOf(m + 1, n.lo) /\ n.hi + k >= m}} ELSE {})
    [] e.op = "spin" ->       \* a loop of a[2] rounds, each some operations
        LET m == n.lim.maxOpCnt
            t == [n EXCEPT !.least = @ + 3 * a[2], !.most = @ + 40 * a[2] + 1000]
        IN IF m = 0 THEN {Res(s, <<"ok", a[2]>>)}
           ELSE (IF t.least <= m THEN {Res(set(t), <<"ok", a[2]>>)} ELSE {}) \cup
                (IF t.most > m THEN {Res([s EXCEPT !.ch = SubSeq(@, 1, i - 1)], <<"e", 0>>)} ELSE {})
    [] OTHER -> {}
\* nothing below a safe interpreter is unsafe or less limited than it; no interpreter is beyond the depth its parent allows
Inv(s) == \A j \in 2..Len(s.ch) : /\ s.ch[j - 1].safe => s.ch[j].safe /\ s.ch[j].lim = s.ch[j - 1].lim
                                  /\ s.ch[j].lo <= s.ch[j].hi
\* the limits of a safe interpreter never change while it lives
StepInv(s, e, s2) == \A j \in 1..MinOf(Len(s.ch), Len(s2.ch)) : s.ch[j].safe /\ s2.ch[j].safe /\ ~(e.op = "new" /\ j > e.a[1] + 1) => s2.ch[j].lim = s.ch[j].lim
================================================================================
