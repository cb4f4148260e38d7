-------------------------------- MODULE Coll --------------------------------
(* The containers of the C API: hash tables and trees (also through Jsi_Map) as maps from keys to values, lists as
   sequences of entries.  Results are [result, values given to the free procedure, size].  The walk of a tree reports
   its nodes, from which the specification judges the red-black invariants and the order of every traversal.       *)
EXTENDS TLC, Sequences, Naturals, Integers, FiniteSets, SequencesExt

\* m: collections [t: 0 gone, 1 hash, 2 tree, 3 list; fp: has a free procedure; c: the map / the sequence of entries]
\* h: entries held [m, k, ok];  l: list entries [v, m (0: in no list)]
Init0 == [m |-> <<>>, h |-> <<>>, l |-> <<>>]

Sorted(S) == SetToSortSeq(S, <)
RECURSIVE SortInts(_)
SortInts(q) == SortSeq(q, <)
NonZero(q) == SelectSeq(q, LAMBDA x : x # 0)
Vals(c) == LET ks == Sorted(DOMAIN c) IN [i \in 1..Len(ks) |-> c[ks[i]]]
Freed(mm, q) == IF mm.fp = 1 THEN SortInts(NonZero(q)) ELSE <<>>
Without(c, k) == [x \in DOMAIN c \ {k} |-> c[x]]
Bool(b) == IF b THEN 1 ELSE 0
Size(mm) == IF mm.t = 0 THEN 0 ELSE IF mm.t = 3 THEN Len(mm.c) ELSE Cardinality(DOMAIN mm.c)

One(s, e, i, res, fr) == {[s |-> s, r |-> <<res, fr, Size(s.m[i])>>]}
KillH(s, i, ks) == [s EXCEPT !.h = [j \in DOMAIN s.h |-> IF s.h[j].m = i /\ s.h[j].k \in ks THEN [s.h[j] EXCEPT !.ok = FALSE] ELSE s.h[j]]]
SetC(s, i, c) == [s EXCEPT !.m[i].c = c]
DelKey(s, i, k) == KillH(SetC(s, i, Without(s.m[i].c, k)), i, {k})

\* ---------------------------------------------------------------------------------------- lists
ListVals(s, q) == [j \in 1..Len(q) |-> s.l[q[j]].v]
RECURSIVE LDump(_, _)
LDump(s, i) == IF i > Len(s.m) THEN <<>>
               ELSE (IF s.m[i].t = 3 THEN LET q == s.m[i].c IN <<i, Len(q)>> \o ListVals(s, q) \o <<-1>> \o ListVals(s, Reverse(q)) \o <<-2>> ELSE <<>>)
                    \o LDump(s, i + 1)
Pos(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x
Insert(q, x, b) == IF b = 0 THEN Append(q, x) ELSE LET j == Pos(q, b) IN SubSeq(q, 1, j - 1) \o <<x>> \o SubSeq(q, j, Len(q))
Remove1(q, x) == SelectSeq(q, LAMBDA y : y # x)
Unlink(s, x) == IF s.l[x].m = 0 THEN s ELSE [s EXCEPT !.m[s.l[x].m].c = Remove1(s.m[s.l[x].m].c, x), !.l[x].m = 0]
LOut(s, i, res, fr) == {[s |-> s, r |-> <<res \o LDump(s, 1), fr, Size(s.m[i])>>]}

\* ---------------------------------------------------------------------------------------- tree shapes
\* d = <<bad, n, (key, value, colour, right, left)*n, 4 walks, 4 searches>>; node numbers in preorder (right first); right holds the smaller keys
Node(d, i, f) == d[2 + (i - 1) * 5 + f]
K(d, i) == Node(d, i, 1)
Cl(d, i) == IF i = 0 THEN 1 ELSE Node(d, i, 3)
Rt(d, i) == Node(d, i, 4)
Lf(d, i) == Node(d, i, 5)
RECURSIVE InO(_, _), PostO(_, _), BH(_, _), LevelO(_, _)
InO(d, i) == IF i = 0 THEN <<>> ELSE InO(d, Rt(d, i)) \o <<K(d, i)>> \o InO(d, Lf(d, i))
PostO(d, i) == IF i = 0 THEN <<>> ELSE PostO(d, Rt(d, i)) \o PostO(d, Lf(d, i)) \o <<K(d, i)>>
\* breadth first, a level at a time
LevelO(d, q) == IF q = <<>> THEN <<>>
                ELSE [j \in 1..Len(q) |-> K(d, q[j])] \o
                     LevelO(d, SelectSeq([j \in 1..2 * Len(q) |-> IF j % 2 = 1 THEN Rt(d, q[(j + 1) \div 2]) ELSE Lf(d, q[j \div 2])], LAMBDA x : x # 0))
\* number of black nodes on every path below, or -1 when it differs or red follows red
BH(d, i) == IF i = 0 THEN 0
            ELSE LET a == BH(d, Rt(d, i)) b == BH(d, Lf(d, i)) IN
                 IF a < 0 \/ a # b \/ (Cl(d, i) = 0 /\ (Cl(d, Rt(d, i)) = 0 \/ Cl(d, Lf(d, i)) = 0)) THEN -1
                 ELSE a + Cl(d, i)
ShapeOk(c, d) ==
  LET n == Cardinality(DOMAIN c) IN
  /\ Len(d) = 2 + 13 * n /\ d[1] = 0 /\ d[2] = n
  /\ \A i \in 1..n : K(d, i) \in DOMAIN c /\ c[K(d, i)] = Node(d, i, 2) /\ Rt(d, i) >= 0 /\ Lf(d, i) >= 0 /\ (Rt(d, i) # 0 => Rt(d, i) > i) /\ (Lf(d, i) # 0 => Lf(d, i) > i)
  /\ n > 0 =>
     /\ Cl(d, 1) = 1 /\ BH(d, 1) > 0
     /\ LET in == InO(d, 1)
            pre == [i \in 1..n |-> K(d, i)]
            post == PostO(d, 1)
            lev == LevelO(d, <<1>>)
            W(j) == SubSeq(d, 3 + (5 + j) * n, 2 + (6 + j) * n)
        IN /\ in = Sorted(DOMAIN c)
           /\ W(0) = in /\ W(1) = pre /\ W(2) = post /\ W(3) = lev
           /\ W(4) = in /\ W(5) = pre /\ W(6) = post /\ W(7) = lev

Perm(q, S) == Len(q) = Cardinality(S) /\ {q[i] : i \in 1..Len(q)} = S

Do(s, e) ==
  LET a == e.a IN
  CASE e.op = "new" ->
         LET s2 == [s EXCEPT !.m = Append(@, [t |-> a[1], fp |-> a[4], c |-> <<>>])] IN
         IF a[1] = 3 THEN LOut(s2, Len(s2.m), <<>>, <<>>) ELSE One(s2, e, Len(s2.m), <<>>, <<>>)
    [] e.op = "set" -> One(SetC(s, a[1], (a[2] :> a[3]) @@ s.m[a[1]].c), e, a[1], <<>>, <<>>)
    [] e.op = "fill" ->
         LET ks == {k \in a[2]..a[3] : (k - a[2]) % a[4] = 0} IN
         One(SetC(s, a[1], [k \in ks |-> IF a[5] = 1 THEN k + 1 ELSE 0] @@ s.m[a[1]].c), e, a[1], <<>>, <<>>)
    [] e.op = "unfill" ->
         LET ks == Sorted({k \in a[2]..a[3] : (k - a[2]) % a[4] = 0})
             c  == s.m[a[1]].c
             in == DOMAIN c \cap {ks[i] : i \in 1..Len(ks)}
             fr == SelectSeq(ks, LAMBDA k : k \in in) IN
         One(KillH(SetC(s, a[1], [x \in DOMAIN c \ in |-> c[x]]), a[1], in), e, a[1], [i \in 1..Len(ks) |-> Bool(ks[i] \in in)],
             Freed(s.m[a[1]], [i \in 1..Len(fr) |-> c[fr[i]]]))
    [] e.op = "get" -> One(s, e, a[1], <<IF a[2] \in DOMAIN s.m[a[1]].c THEN s.m[a[1]].c[a[2]] ELSE 0>>, <<>>)
    [] e.op = "find" -> One(s, e, a[1], <<Bool(a[2] \in DOMAIN s.m[a[1]].c)>>, <<>>)
    [] e.op = "enew" ->
         LET c == s.m[a[1]].c IN
         IF a[2] \in DOMAIN c THEN One(s, e, a[1], <<0, a[2], c[a[2]]>>, <<>>)
         ELSE One(SetC(s, a[1], (a[2] :> 0) @@ c), e, a[1], <<1, a[2], 0>>, <<>>)
    [] e.op = "unset" ->
         LET c == s.m[a[1]].c IN
         IF a[2] \in DOMAIN c THEN One(DelKey(s, a[1], a[2]), e, a[1], <<1>>, Freed(s.m[a[1]], <<c[a[2]]>>))
         ELSE One(s, e, a[1], <<0>>, <<>>)
    [] e.op = "hold" ->
         LET in == a[2] \in DOMAIN s.m[a[1]].c IN
         One([s EXCEPT !.h = Append(@, [m |-> a[1], k |-> a[2], ok |-> in])], e, a[1], <<Bool(in)>>, <<>>)
    [] e.op \in {"hget", "hset", "hdel"} ->
         LET x == s.h[a[1]] IN
         IF ~x.ok THEN {}          \* the entry is gone: never asked for
         ELSE IF e.op = "hget" THEN One(s, e, x.m, <<x.k, s.m[x.m].c[x.k]>>, <<>>)
         ELSE IF e.op = "hset" THEN One([s EXCEPT !.m[x.m].c[x.k] = a[2]], e, x.m, <<>>, <<>>)
         ELSE One(DelKey(s, x.m, x.k), e, x.m, <<>>, Freed(s.m[x.m], <<s.m[x.m].c[x.k]>>))
    [] e.op \in {"clear", "del"} ->
         LET i == a[1]
             mm == s.m[i]
             s2 == [s EXCEPT !.m[i].c = <<>>, !.m[i].t = IF e.op = "del" THEN 0 ELSE @]
             s3 == IF mm.t = 3 THEN [s2 EXCEPT !.l = [j \in DOMAIN s.l |-> IF s.l[j].m = i THEN [s.l[j] EXCEPT !.m = -1] ELSE s.l[j]]]
                   ELSE KillH(s2, i, DOMAIN mm.c)
             fr == Freed(mm, IF mm.t = 3 THEN ListVals(s, mm.c) ELSE Vals(mm.c)) IN
         IF mm.t = 3 /\ e.op = "clear" THEN LOut(s3, i, <<>>, fr) ELSE One(s3, e, i, <<>>, fr)
    [] e.op = "search" ->
         LET c == s.m[a[1]].c q == e.r[1] IN
         IF s.m[a[1]].t = 2 THEN One(s, e, a[1], Sorted(DOMAIN c), <<>>)
         ELSE IF Perm(q, DOMAIN c) THEN One(s, e, a[1], q, <<>>) ELSE {}
    [] e.op = "sdel" ->
         LET c == s.m[a[1]].c
             q == e.r[1]
             o == Sorted(DOMAIN c)
             n == a[2] + 1 IN
         IF s.m[a[1]].t = 2
         THEN IF Len(o) < n THEN One(s, e, a[1], o, <<>>)
              ELSE One(DelKey(s, a[1], o[n]), e, a[1], SubSeq(o, 1, n), Freed(s.m[a[1]], <<c[o[n]]>>))   \* a change ends the search
         ELSE IF ~Perm(q, DOMAIN c) THEN {}
              ELSE IF Len(q) < n THEN One(s, e, a[1], q, <<>>)
              ELSE One(DelKey(s, a[1], q[n]), e, a[1], q, Freed(s.m[a[1]], <<c[q[n]]>>))
    [] e.op = "during" ->                \* a = <<tree, search or walk, order, at, act, key, value>>: what the visitor does to the tree at one entry
         LET i == a[1] c == s.m[i].c k == a[6] q == e.r[1]
             hit == a[4] < Cardinality(DOMAIN c)
             ends == hit /\ (a[5] \in {1, 5} \/ (a[5] = 2 /\ k \notin DOMAIN c) \/ (a[5] = 3 /\ k \in DOMAIN c))
             n == IF ends THEN a[4] + 1 ELSE Cardinality(DOMAIN c)
             s2 == IF ~hit THEN s
                   ELSE CASE a[5] = 1 -> KillH(SetC(s, i, <<>>), i, DOMAIN c)
                          [] a[5] = 2 -> SetC(s, i, (k :> a[7]) @@ c)
                          [] a[5] = 3 /\ k \in DOMAIN c -> DelKey(s, i, k)
                          [] OTHER -> s
             fr == IF ~hit THEN <<>> ELSE IF a[5] = 1 THEN Freed(s.m[i], Vals(c)) ELSE IF a[5] = 3 /\ k \in DOMAIN c THEN Freed(s.m[i], <<c[k]>>) ELSE <<>> IN
         IF /\ Len(q) = n + 1 /\ q[n + 1] = Bool(a[2] # 1 \/ ~ends)      \* a change ends the search; a walk reports it
            /\ \A x \in 1..n : q[x] \in DOMAIN c /\ \A y \in 1..(x - 1) : q[x] # q[y]
            /\ a[3] = 0 => SubSeq(q, 1, n) = SubSeq(Sorted(DOMAIN c), 1, n)
         THEN One(s2, e, i, q, fr) ELSE {}
    [] e.op = "shape" ->
         IF ShapeOk(s.m[a[1]].c, e.r[1]) THEN One(s, e, a[1], e.r[1], <<>>) ELSE {}
    [] e.op = "lnew" ->
         LET n == Len(s.l) + 1 IN
         LOut([s EXCEPT !.l = Append(@, [v |-> a[2], m |-> a[1]]), !.m[a[1]].c = Insert(@, n, a[3])], a[1], <<>>, <<>>)
    [] e.op = "lmove" ->
         LET s2 == Unlink(s, a[2]) IN
         LOut([s2 EXCEPT !.l[a[2]].m = a[1], !.m[a[1]].c = Insert(@, a[2], a[3])], a[1], <<>>, <<>>)
    [] e.op = "lpop" -> LOut(Unlink(s, a[2]), a[1], <<>>, <<>>)
    [] e.op = "lpopback" -> LET q == s.m[a[1]].c IN LOut(Unlink(s, q[Len(q)]), a[1], <<q[Len(q)]>>, <<>>)
    [] e.op = "lpopfront" -> LET q == s.m[a[1]].c IN LOut(Unlink(s, q[1]), a[1], <<q[1]>>, <<>>)
    [] e.op = "ldel" -> LOut([Unlink(s, a[2]) EXCEPT !.l[a[2]].m = -1], a[1], <<>>, <<>>)
    [] e.op = "lset" -> LOut([s EXCEPT !.l[a[2]].v = a[3]], a[1], <<>>, <<>>)

\* every list entry is in exactly the list it names; live handles name present keys
Inv(s) == /\ \A i \in 1..Len(s.m) : s.m[i].t = 3 => \A x \in 1..Len(s.l) : (s.l[x].m = i) = (\E j \in 1..Len(s.m[i].c) : s.m[i].c[j] = x)
          /\ \A j \in 1..Len(s.h) : s.h[j].ok => s.m[s.h[j].m].t # 0 /\ s.h[j].k \in DOMAIN s.m[s.h[j].m].c
\* what is freed was there; only the collections named change
StepInv(s, e, s2) == \A i \in 1..Len(s.m) : s.m[i].t \in {1, 2} /\ s2.m[i].t = s.m[i].t /\ e.op \in {"get", "find", "search", "shape", "hget"} => s2.m[i] = s.m[i]
=============================================================================
