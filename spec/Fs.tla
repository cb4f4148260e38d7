--------------------------------- MODULE Fs ---------------------------------
(* Property F02: the tree of files below a directory, as the commands of File see and change it.
   s.n: path (sequence of names, from the top of the scratch directory) -> number of an inode; s.ino: the inodes
   [k: "f" file, "d" directory, "l" symbolic link; d: contents; to: what the link says [abs, c]; r, w: may its owner read, write];
   s.cwd: the current directory.  Paths in operations are texts [abs, c: components]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

NoPath == [abs |-> FALSE, c |-> <<>>]
Dir0 == [k |-> "d", d |-> <<>>, to |-> NoPath, r |-> TRUE, w |-> TRUE]
File0(x) == [k |-> "f", d |-> x, to |-> NoPath, r |-> TRUE, w |-> TRUE]
Link0(t) == [k |-> "l", d |-> <<>>, to |-> t, r |-> TRUE, w |-> TRUE]
Top == <<"r1", "r2", "r3", "t">>
Start == <<>> :> 1 @@ <<"r1">> :> 2 @@ <<"r1", "r2">> :> 3 @@ <<"r1", "r2", "r3">> :> 4 @@ Top :> 5 @@ (Top \o <<"w">>) :> 6 @@ (Top \o <<"w", "v">>) :> 7
Init0 == [n |-> Start, ino |-> [k \in 1..7 |-> Dir0], cwd |-> Top]

Order == <<"a", "ab", "a.c", "b", "b.txt", "c", "d", "L", ".h", "w", "v", "r1", "r2", "r3", "t", "P", "q", ".", "..">>
Idx == [x \in {Order[k] : k \in 1..Len(Order)} |-> CHOOSE k \in 1..Len(Order) : Order[k] = x]
CharsOf == "a" :> <<"a">> @@ "ab" :> <<"a", "b">> @@ "a.c" :> <<"a", ".", "c">> @@ "b" :> <<"b">> @@ "b.txt" :> <<"b", ".", "t", "x", "t">> @@ "c" :> <<"c">>
           @@ "d" :> <<"d">> @@ "L" :> [k \in 1..90 |-> "L"] @@ ".h" :> <<".", "h">> @@ "w" :> <<"w">> @@ "q" :> <<"q">> @@ "v" :> <<"v">> @@ "t" :> <<"t">>
           @@ "r1" :> <<"r", "1">> @@ "r2" :> <<"r", "2">> @@ "r3" :> <<"r", "3">>
RECURSIVE Less(_, _)
Less(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
              ELSE IF p[1] = q[1] THEN Less(Tail(p), Tail(q)) ELSE Idx[p[1]] < Idx[q[1]]

I(s, q) == s.ino[s.n[q]]
Up(q) == IF q = <<>> THEN <<>> ELSE SubSeq(q, 1, Len(q) - 1)
Under(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p        \* q is p or below it
Kids(s, q) == {x \in DOMAIN s.n : x # <<>> /\ x # q /\ Up(x) = q}

\* where components c lead from directory p: ok (there), no (could be made there), err
RECURSIVE Walk(_, _, _, _, _)
Walk(s, p, c, follow, fuel) ==
  IF c = <<>> THEN [t |-> "ok", p |-> p]
  ELSE IF I(s, p).k # "d" THEN [t |-> "err", p |-> <<>>]
  ELSE IF c[1] = "." THEN Walk(s, p, Tail(c), follow, fuel)
  ELSE IF c[1] = ".." THEN Walk(s, Up(p), Tail(c), follow, fuel)
  ELSE LET q == Append(p, c[1]) IN
       IF q \notin DOMAIN s.n THEN (IF Len(c) = 1 THEN [t |-> "no", p |-> q] ELSE [t |-> "enoent", p |-> <<>>])
       ELSE IF I(s, q).k = "l" /\ (Len(c) > 1 \/ follow)
            THEN IF fuel = 0 THEN [t |-> "err", p |-> <<>>]
                 ELSE Walk(s, IF I(s, q).to.abs THEN <<>> ELSE p, I(s, q).to.c \o Tail(c), follow, fuel - 1)
            ELSE Walk(s, q, Tail(c), follow, fuel)
Res(s, a, follow) == Walk(s, IF a.abs THEN <<>> ELSE s.cwd, a.c, follow, 39)
Has(s, a) == Res(s, a, TRUE).t = "ok"

CanMake(s, q) == I(s, Up(q)).w
Add(s, q, node) == [s EXCEPT !.n = (q :> (Len(s.ino) + 1)) @@ s.n, !.ino = Append(s.ino, node)]
Del(s, Q) == [s EXCEPT !.n = [x \in (DOMAIN s.n) \ Q |-> s.n[x]]]
Move(s, p, q) == LET D == {x \in DOMAIN s.n : Under(p, x)}
                     new(x) == q \o SubSeq(x, Len(p) + 1, Len(x))
                     keep == (DOMAIN s.n) \ (D \cup {q}) IN
                 [s EXCEPT !.n = [x \in keep \cup {new(y) : y \in D} |-> IF x \in keep THEN s.n[x] ELSE s.n[CHOOSE y \in D : new(y) = x]]]
Links(s, q) == Cardinality({x \in DOMAIN s.n : s.n[x] = s.n[q]})
\* what a removal by force cannot remove below and at q
RECURSIVE Stuck(_, _)
Stuck(s, q) == LET K == UNION {Stuck(s, x) : x \in Kids(s, q)} IN
               IF I(s, q).k # "d" THEN (IF CanMake(s, q) THEN {} ELSE {q})
               ELSE IF K = {} /\ CanMake(s, q) THEN {} ELSE K \cup {q}

\* make a directory and what is missing above it: [ok, s]
RECURSIVE MkAll(_, _, _)
MkAll(s, a, again) ==
  LET R == Res(s, a, FALSE)  parent == [a EXCEPT !.c = SubSeq(a.c, 1, Len(a.c) - 1)] IN
  CASE R.t = "ok" -> [ok |-> LET F == Res(s, a, TRUE) IN F.t = "ok" /\ I(s, F.p).k = "d", s |-> s]
    [] R.t = "no" -> IF CanMake(s, R.p) THEN [ok |-> TRUE, s |-> Add(s, R.p, Dir0)] ELSE [ok |-> FALSE, s |-> s]
    [] R.t = "enoent" /\ again /\ Len(a.c) > 1 -> LET M == MkAll(s, parent, TRUE) IN IF M.ok THEN MkAll(M.s, a, FALSE) ELSE M
    [] OTHER -> [ok |-> FALSE, s |-> s]

----------------------------------------------------------------------------
\* listings
ClsOf == "[ab]" :> {"a", "b"} @@ "[cd]" :> {"c", "d"}
RECURSIVE Glob(_, _)
Glob(p, x) == IF p = <<>> THEN x = <<>>
              ELSE IF p[1] = "*" THEN Glob(Tail(p), x) \/ (x # <<>> /\ Glob(p, Tail(x)))
              ELSE x # <<>> /\ (p[1] = "?" \/ p[1] = x[1] \/ (p[1] \in DOMAIN ClsOf /\ x[1] \in ClsOf[p[1]])) /\ Glob(Tail(p), Tail(x))
Hidden(nm) == CharsOf[nm][1] = "."
\* what an entry q of a directory counts as: "d", "f", "l" (a link to a file), "" (a link to nothing)
Kind(s, q) == IF I(s, q).k # "l" THEN I(s, q).k
              ELSE LET R == Walk(s, Up(q), <<q[Len(q)]>>, TRUE, 39) IN
                   IF R.t # "ok" THEN "" ELSE IF I(s, R.p).k = "d" THEN "d" ELSE "l"
Real(s, q) == Walk(s, Up(q), <<q[Len(q)]>>, TRUE, 39).p
Within(G, q) == \E g \in G : Under(g, q)
\* the entries of directory p (canonical), shown behind the text `shown', that the options o keep: a set of shown paths
RECURSIVE List(_, _, _, _, _)
List(s, p, shown, o, depth) ==
  UNION {LET nm == q[Len(q)]  k == Kind(s, q)  me == Append(shown, nm)
             cut == o.dirFilter # "" /\ k = "d" /\ o.recurse /\ depth < o.maxDepth /\ nm = o.dirFilter
             keep == /\ Glob(o.pat, CharsOf[nm])
                     /\ o.types = {} \/ k \in o.types
                     /\ o.noTypes = {} \/ k \notin o.noTypes
                     /\ o.filter = "" \/ nm # o.filter
         IN IF Hidden(nm) \/ k = "" \/ cut THEN {}
            ELSE (IF keep THEN {me} ELSE {}) \cup
                 (IF o.recurse /\ k = "d" /\ depth < o.maxDepth /\ Within(o.in, Real(s, q)) THEN List(s, Real(s, q), me, o, depth + 1) ELSE {})
         : q \in Kids(s, p)}
Plain(p) == \A k \in 1..Len(p) : p[k] \notin {"*", "?"} \cup DOMAIN ClsOf
\* a pattern of several components: <<set of shown paths, whether its first directories are there>>
RECURSIVE Deep(_, _, _, _, _)
Deep(s, p, shown, ps, o) ==
  IF Len(ps) = 1 THEN List(s, p, shown, [o EXCEPT !.pat = ps[1]], 0)
  ELSE UNION {LET nm == q[Len(q)] IN IF Kind(s, q) # "d" \/ (IF Plain(ps[1]) THEN CharsOf[nm] # ps[1] ELSE Hidden(nm) \/ ~Glob(ps[1], CharsOf[nm])) THEN {}
              ELSE IF ~Within(o.in, Real(s, q)) THEN {}
              ELSE Deep(s, Real(s, q), Append(shown, nm), Tail(ps), o) : q \in Kids(s, p)}

\* do the literal components that such a pattern starts with lead nowhere?
RECURSIVE Literal(_, _, _)
Literal(s, p, ps) ==
  IF Len(ps) = 1 \/ ~Plain(ps[1]) THEN FALSE
  ELSE LET K == {q \in Kids(s, p) : CharsOf[q[Len(q)]] = ps[1] /\ Kind(s, q) = "d"} IN
       IF K = {} THEN TRUE ELSE LET q == CHOOSE q \in K : TRUE IN Literal(s, Real(s, q), Tail(ps))

----------------------------------------------------------------------------
N(n) == <<"n", <<ToString(n)>>>>
B(x) == <<"b", <<IF x THEN "true" ELSE "false">>>>
E == <<"e", <<>>>>
OK == <<"ok", <<>>>>
Text(t) == <<"p", <<IF t.abs THEN "abs" ELSE "rel">> \o t.c>>
Rw(x) == (IF x.r THEN "r" ELSE "-") \o (IF x.w THEN "w" ELSE "-")

\* "x/.." may be dropped from the path of a file to be opened before anything is looked up
RECURSIVE Short(_, _)
Short(done, c) == IF c = <<>> THEN done
                  ELSE IF c[1] = "." THEN Short(done, Tail(c))
                  ELSE IF c[1] = ".." /\ done # <<>> /\ done[Len(done)] # ".." THEN Short(SubSeq(done, 1, Len(done) - 1), Tail(c))
                  ELSE Short(Append(done, c[1]), Tail(c))
Alt(p) == {p, [p EXCEPT !.c = Short(<<>>, p.c)]}

Do1(s, e, gr) ==          \* gr: the directories that may be listed on the way
  LET a == e.a  op == e.op
      one(t, r) == {[s |-> t, r |-> r]}
      err == one(s, E)
      p == a[1]
      F == Res(s, p, TRUE)        \* links followed
      L == Res(s, p, FALSE)       \* the last one not
      isf == F.t = "ok" /\ I(s, F.p).k = "f"
      isd == F.t = "ok" /\ I(s, F.p).k = "d"
      x == I(s, F.p)
      set(q, y) == [s EXCEPT !.ino[s.n[q]] = y]
  IN
  CASE op = "write" ->       \* file, bytes, mode ("": wb+, "w", "a")
         LET ok == IF a[3] = "" THEN x.r /\ x.w ELSE x.w IN
         IF isf THEN (IF ok THEN one(set(F.p, [x EXCEPT !.d = IF a[3] = "a" THEN @ \o a[2] ELSE a[2]]), N(Len(a[2]))) ELSE err)
         ELSE IF F.t = "no" /\ CanMake(s, F.p) THEN one(Add(s, F.p, File0(a[2])), N(Len(a[2]))) ELSE err
    [] op = "read" -> IF isf /\ x.r THEN one(s, <<"s", x.d>>) ELSE err
    [] op = "trunc" -> IF isf /\ x.r /\ x.w /\ a[2] >= 0
                       THEN one(set(F.p, [x EXCEPT !.d = IF a[2] <= Len(@) THEN SubSeq(@, 1, a[2]) ELSE @ \o [k \in 1..(a[2] - Len(@)) |-> "00"]]), OK) ELSE err
    [] op = "copy" ->        \* from, to, force
         LET G == Res(s, a[2], TRUE)  H == Res(s, a[2], FALSE)
             old == G.t = "ok"
             y == I(s, G.p)
             put(t, q) == Add(t, q, x) IN
         IF ~isf \/ ~x.r THEN err
         ELSE IF old THEN
           (IF ~a[3] THEN err
            ELSE IF CanMake(s, H.p) /\ I(s, H.p).k # "d" THEN one(put(Del(s, {H.p}), H.p), OK)
            ELSE IF I(s, H.p).k = "d" THEN   \* a directory is no file to be overwritten; an empty one may be
                 err \cup (IF Kids(s, H.p) = {} /\ CanMake(s, H.p) THEN one(put(Del(s, {H.p}), H.p), OK) ELSE {})
            ELSE IF y.k = "f" /\ s.n[G.p] # s.n[F.p] /\ y.r /\ y.w THEN one(set(G.p, [y EXCEPT !.d = x.d, !.r = x.r, !.w = x.w]), OK)
            ELSE err)
         ELSE IF G.t = "no" /\ CanMake(s, G.p) THEN one(put(s, G.p), OK) ELSE err
    [] op = "rename" ->      \* from, to, force
         LET H == Res(s, a[2], FALSE)
             y == I(s, H.p)  z == I(s, L.p)
             same == H.t = "ok" /\ s.n[H.p] = s.n[L.p]
             may == CanMake(s, L.p) /\ CanMake(s, H.p) /\ (z.k = "d" /\ Up(L.p) # Up(H.p) => z.w) IN
         IF L.t # "ok" \/ H.t \notin {"ok", "no"} \/ (~a[3] /\ Has(s, a[2])) THEN err
         ELSE IF same THEN one(s, OK)
         ELSE IF ~may \/ (z.k = "d" /\ Under(L.p, H.p)) THEN err
         ELSE IF H.t = "no" THEN one(Move(s, L.p, H.p), OK)
         ELSE IF z.k = "d" THEN (IF y.k = "d" /\ Kids(s, H.p) = {} THEN one(Move(s, L.p, H.p), OK) ELSE err)
         ELSE IF y.k = "d" THEN err ELSE one(Move(s, L.p, H.p), OK)
    [] op = "remove" ->      \* file, force
         IF L.t # "ok" THEN one(s, IF a[2] THEN OK ELSE E)
         ELSE IF Kids(s, L.p) # {} /\ ~a[2] THEN err
         ELSE LET T == Stuck(s, L.p)  D == {q \in DOMAIN s.n : Under(L.p, q)} IN
              IF T = {} THEN one(Del(s, D), OK)
              ELSE IF ~a[2] THEN err
              ELSE IF I(s, L.p).k = "d" /\ \E q \in T : I(s, q).k # "d" THEN one(Del(s, D \ T), E)      \* a file that stays is reported
              ELSE one(Del(s, D \ T), OK) \cup one(Del(s, D \ T), E)
    [] op = "mkdir" ->       \* directory, with those above it
         IF a[2] THEN LET M == MkAll(s, p, TRUE) IN one(M.s, IF M.ok THEN OK ELSE E)
         ELSE IF L.t = "no" /\ CanMake(s, L.p) THEN one(Add(s, L.p, Dir0), OK) ELSE err
    [] op = "link" ->        \* what, where, hard
         LET H == Res(s, a[2], FALSE) IN
         IF H.t # "no" \/ ~CanMake(s, H.p) THEN err
         ELSE IF ~a[3] THEN one(Add(s, H.p, Link0(p)), OK)
         ELSE IF L.t # "ok" \/ I(s, L.p).k = "d" THEN err
         ELSE one([s EXCEPT !.n = (H.p :> s.n[L.p]) @@ s.n], OK)
    [] op = "chmod" -> IF F.t = "ok" THEN one(set(F.p, [x EXCEPT !.r = IF x.k = "d" THEN TRUE ELSE a[2], !.w = a[3]]), OK) ELSE err
    [] op = "temp" -> IF isd /\ x.w THEN one(s, B(TRUE)) ELSE err     \* a temporary file in p (removed again)
    [] op = "exists" -> one(s, B(F.t = "ok"))
    [] op = "isdir" -> one(s, B(isd))
    [] op = "isfile" -> one(s, B(isf))
    [] op = "readable" -> one(s, B(F.t = "ok" /\ x.r))
    [] op = "writable" -> one(s, B(F.t = "ok" /\ x.w))
    [] op = "size" -> IF isf THEN one(s, N(Len(x.d))) ELSE IF isd THEN one(s, OK) ELSE err
    [] op = "perms" -> one(s, <<"s", IF F.t = "ok" THEN <<IF x.k = "d" THEN "d" ELSE "-", Rw(x)>> ELSE <<"-", "--">>>>)
    [] op = "stat" -> IF isf THEN one(s, <<"t", <<"-", ToString(Links(s, F.p)), ToString(Len(x.d))>>>>) ELSE IF isd THEN one(s, <<"t", <<"d", "", "">>>>) ELSE err
    [] op = "lstat" -> LET z == I(s, L.p) IN
         IF L.t # "ok" THEN err
         ELSE one(s, <<"t", IF z.k = "f" THEN <<"-", ToString(Links(s, L.p)), ToString(Len(z.d))>> ELSE <<z.k, "", "">>>>)
    [] op = "readlink" -> IF L.t = "ok" /\ I(s, L.p).k = "l" THEN one(s, Text(I(s, L.p).to)) ELSE err
    [] op = "chdir" -> IF isd THEN one([s EXCEPT !.cwd = F.p], OK) ELSE err
    [] op = "pwd" -> one(s, <<"p", <<"abs">> \o s.cwd>>)
    [] op = "glob" ->        \* start (a path or none), patterns (one or more components), options
         LET o == a[3]
             R == Res(s, p, TRUE)
             opt == [in |-> gr, pat |-> <<"*">>, recurse |-> o.recurse, maxDepth |-> IF o.recurse THEN o.maxDepth ELSE 0,
                     types |-> {o.types[k] : k \in 1..Len(o.types)}, noTypes |-> {o.noTypes[k] : k \in 1..Len(o.noTypes)},
                     filter |-> o.filter, dirFilter |-> o.dirFilter]
             sets == {Deep(s, R.p, <<>>, a[2], opt)}
             pre == IF o.prefix THEN <<"P">> ELSE <<>>
             lst(S) == IF o.tails THEN LET q == SetToSortSeq(S, LAMBDA m, n : LET u == m[Len(m)] v == n[Len(n)] IN IF u = v THEN Less(m, n) ELSE Idx[u] < Idx[v])
                                       IN [k \in 1..Len(q) |-> <<q[k][Len(q[k])]>>]
                       ELSE LET q == SetToSortSeq(S, Less) IN [k \in 1..Len(q) |-> pre \o q[k]] IN
         IF R.t # "ok" \/ I(s, R.p).k # "d" THEN err
         ELSE (IF Literal(s, R.p, a[2]) THEN err ELSE {}) \cup
              UNION {IF o.throw THEN (IF S = {} THEN one(s, <<"l", <<>>>>) ELSE one(s, <<"e", <<>>>>))
                     ELSE IF o.count THEN one(s, <<"c", <<<<ToString(IF o.limit > 0 /\ Cardinality(S) > o.limit THEN o.limit ELSE Cardinality(S))>>>>>>)
                     ELSE one(s, <<"l", lst(S)>>) : S \in sets}
    [] op = "final" ->       \* the whole tree, as it is found on the disk
         LET q == SetToSortSeq(DOMAIN s.n, Less) IN
         one(s, <<"l", [k \in 1..Len(q) |-> LET z == I(s, q[k]) IN <<z.k, q[k], IF z.k = "f" THEN z.d ELSE IF z.k = "l" THEN Text(z.to)[2] ELSE <<>>, IF z.k = "l" THEN "rw" ELSE Rw(z)>>]>>)

DoIn(s, e, G) ==
  IF e.op \in {"read", "write", "trunc"} THEN UNION {Do1(s, [op |-> e.op, a |-> [e.a EXCEPT ![1] = p]], G) : p \in Alt(e.a[1])}
  ELSE IF e.op = "copy" THEN UNION {LET D == Do1(s, [op |-> e.op, a |-> <<p, q, e.a[3]>>], G)
               \* permissions come with the copy, except to or from a name that only its simplified form finds
               OwnPerms(t) == LET R == Res(t, q, TRUE) IN IF R.t = "ok" THEN [t EXCEPT !.ino[t.n[R.p]].r = TRUE, !.ino[t.n[R.p]].w = TRUE] ELSE t IN
           D \cup (IF p = e.a[1] /\ q = e.a[2] THEN {} ELSE {[d EXCEPT !.s = OwnPerms(@)] : d \in {d \in D : d.r = OK}}) : p \in Alt(e.a[1]), q \in Alt(e.a[2])}
  ELSE Do1(s, e, G)
FsDo(s, e) == DoIn(s, e, {<<>>})

\* every entry lies in a directory; directories have one name
FsInv(s) ==
  /\ \A q \in DOMAIN s.n : s.n[q] \in 1..Len(s.ino) /\ (q # <<>> => Up(q) \in DOMAIN s.n /\ I(s, Up(q)).k = "d")
  /\ \A q \in DOMAIN s.n : I(s, q).k = "d" => Links(s, q) = 1
  /\ s.cwd \in DOMAIN s.n /\ I(s, s.cwd).k = "d"
Reads == {"read", "exists", "isdir", "isfile", "readable", "writable", "size", "perms", "stat", "lstat", "readlink", "pwd", "glob", "final", "temp"}
\* reading changes nothing; only the entries named change: no other entry appears, disappears or gets another inode, and contents
\* change only of the file named.  (Whether a failing command changed anything is part of Do.)
FsStep(s, e, t) ==
  LET near(q) == \E k \in 1..Len(e.a) : k \in 1..2 /\ (k = 1 \/ e.op \in {"copy", "rename", "link"}) /\
                    \E f \in {TRUE, FALSE}, v \in Alt(e.a[k]) : LET R == Res(s, v, f) IN R.t \in {"ok", "no"} /\ (Under(R.p, q) \/ (e.op = "mkdir" /\ Under(q, R.p))) IN
  /\ e.op \in Reads => t = s
  /\ e.op # "chdir" => t.cwd = s.cwd
  /\ e.op \notin Reads \cup {"chdir"} => \A q \in (DOMAIN s.n) \cup (DOMAIN t.n) :
        (q \notin DOMAIN s.n \/ q \notin DOMAIN t.n \/ s.n[q] # t.n[q]) => near(q) \/ (e.op = "mkdir" /\ e.a[2])
  /\ e.op \in {"mkdir", "write", "link", "trunc", "chmod"} => DOMAIN s.n \subseteq DOMAIN t.n
  /\ e.op = "copy" => \A q \in DOMAIN s.n : q \in DOMAIN t.n
=============================================================================
