--------------------------------- MODULE Pkg ---------------------------------
\* Packages: require() finds, loads and checks them, provide() makes them available.
\* A version is a number of ten-thousandths (1.2.3 is 10203), or -1 when written badly.
\* The state: dirs  the folders searched (each a sequence of names), fs  the package files: [d |-> folder, n |-> name, b |-> body],
\*            pk  the packages provided: name -> [v |-> version, f |-> id of the file, <<folder, name>>], lost  nothing is known any more
\* A body is a sequence of actions [k, n, v]: p provide, d provide by file name, r require, c require with errors caught,
\* o require with options, x throw, s a syntax error.
EXTENDS Naturals, Integers, Sequences, FiniteSets
Top == <<"t">>
Main == <<Top, "main">>
S0 == [dirs |-> <<>>, fs |-> {}, pk |-> [x \in {} |-> [v |-> 0, f |-> Main]], lost |-> FALSE]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
BadNames == {"", "9a", "a-b", "a.b", "a/b"}

\* the file found for a package, for a request from a file in folder d: a sequence of none or one
RECURSIVE Find(_, _, _)
Find(fs, ds, n) == IF ds = <<>> THEN <<>> ELSE
  LET D == Head(ds) IN
  IF \E f \in fs : f.d = D /\ f.n = n THEN <<CHOOSE f \in fs : f.d = D /\ f.n = n>>
  ELSE IF \E f \in fs : f.d = Append(D, n) /\ f.n = n THEN <<CHOOSE f \in fs : f.d = Append(D, n) /\ f.n = n>>
  ELSE Find(fs, Tail(ds), n)

\* x: [s |-> state, log |-> files read so far, ok |-> without an error]
Fail(x) == [x EXCEPT !.ok = FALSE]
Provide(x, n, v, f) ==
  IF v <= 0 \/ v >= 1000000 \/ n \in BadNames THEN Fail(x)
  ELSE IF n \in DOMAIN x.s.pk THEN (IF x.s.pk[n].f = f THEN x ELSE Fail(x))
  ELSE [x EXCEPT !.s.pk = Put(@, n, [v |-> v, f |-> f])]

RECURSIVE Require(_, _, _, _, _), Body(_, _, _, _)
\* stack: the files being read, the innermost last
Require(x, n, v, stack, checked) ==
  IF n \in BadNames \/ v < 0 \/ v >= 1000000 THEN Fail(x)
  ELSE LET y == IF n \in DOMAIN x.s.pk THEN x
                ELSE LET g == Find(x.s.fs, Append(x.s.dirs, stack[Len(stack)][1]), n) IN
                  IF g = <<>> THEN Fail(x)
                  ELSE LET f == g[1]
                           id == <<f.d, f.n>> IN
                    IF \E j \in 1..Len(stack) : stack[j] = id THEN [x EXCEPT !.s.lost = TRUE]
                    ELSE IF \E j \in 1..Len(f.b) : f.b[j].k = "s" THEN Fail(x)
                    ELSE LET z == Body([x EXCEPT !.log = Append(@, id)], f.b, 1, Append(stack, id)) IN
                      IF z.s.lost THEN z
                      ELSE IF ~z.ok THEN [z EXCEPT !.s.pk = Del(@, n)]
                      ELSE IF n \notin DOMAIN z.s.pk THEN Fail(z)
                      ELSE [z EXCEPT !.s.pk = Put(@, n, [z.s.pk[n] EXCEPT !.f = id])]
       IN IF y.s.lost \/ ~y.ok THEN y
          ELSE IF checked /\ y.s.pk[n].v < v THEN Fail(y) ELSE y
Body(x, b, j, stack) ==
  IF j > Len(b) \/ ~x.ok \/ x.s.lost THEN x
  ELSE LET c == b[j]
           me == stack[Len(stack)]
           y == CASE c.k = "p" -> Provide(x, c.n, c.v, me)
                  [] c.k = "d" -> Provide(x, me[2], 10000, me)
                  [] c.k = "r" -> Require(x, c.n, c.v, stack, TRUE)
                  [] c.k = "o" -> Require(x, c.n, c.v, stack, TRUE)
                  [] c.k = "c" -> [Require(x, c.n, c.v, stack, TRUE) EXCEPT !.ok = TRUE]
                  [] OTHER -> Fail(x)
       IN Body(y, b, j + 1, stack)

X0(s) == [s |-> s, log |-> <<>>, ok |-> TRUE]
R(y, r) == {[s |-> y.s, r |-> [ok |-> IF y.ok THEN "ok" ELSE "err", log |-> y.log, v |-> r]]}
PkgInfo(s, n) == IF n \in DOMAIN s.pk THEN <<<<s.pk[n].v, s.pk[n].f>>>> ELSE <<>>
\* e: [op, a]; the result: ok, the files read, and what was returned: a sequence of <<version, file>>
Do(s, e) ==
  LET a == e.a IN
  CASE e.op = "req" -> LET y == Require(X0(s), a[1], 0, <<Main>>, FALSE) IN R(y, IF y.ok /\ ~y.s.lost THEN <<<<y.s.pk[a[1]].v, Main>>>> ELSE <<>>)
    [] e.op = "reqv" -> LET y == Require(X0(s), a[1], a[2], <<Main>>, TRUE) IN R(y, IF y.ok THEN PkgInfo(y.s, a[1]) ELSE <<>>)
    [] e.op = "reqo" -> LET y == Require(X0(s), a[1], a[2], <<Main>>, TRUE)
                            z == IF y.ok /\ a[4] = "bad" THEN Fail(y) ELSE y
                        IN R(z, IF z.ok /\ ~z.s.lost THEN <<<<y.s.pk[a[1]].v, Main>>>> ELSE <<>>)
    [] e.op = "prov" -> R(Provide(X0(s), a[1], a[2], Main), <<>>)
    [] e.op = "provd" -> R(Provide(X0(s), "main", 10000, Main), <<>>)
    [] e.op = "info" -> R(X0(s), PkgInfo(s, a[1]))
    [] e.op = "has" -> R(X0(s), <<<<IF a[1] \in DOMAIN s.pk THEN 1 ELSE 0, Main>>>>)
    [] e.op = "dirs" -> R(X0([s EXCEPT !.dirs = a[1]]), <<>>)
    [] e.op = "setup" -> R(X0([s EXCEPT !.dirs = a[1], !.fs = {a[2][j] : j \in 1..Len(a[2])}]), <<>>)
    [] e.op = "write" -> R(X0([s EXCEPT !.fs = {f \in @ : <<f.d, f.n>> # <<a[1], a[2]>>} \cup {[d |-> a[1], n |-> a[2], b |-> a[3]]}]), <<>>)
    [] e.op = "remove" -> R(X0([s EXCEPT !.fs = {f \in @ : <<f.d, f.n>> # <<a[1], a[2]>>}]), <<>>)
    [] OTHER -> {}
\* whatever happens, no package is provided by a file while its own version is not valid
Inv(s) == \A n \in DOMAIN s.pk : s.pk[n].v \in 1..999999 /\ n \notin BadNames
\* a package once provided keeps its version, unless the load that was to provide it failed; nothing outside is changed by requests
StepInv(s, e, u) ==
  u.lost \/ (/\ \A n \in DOMAIN s.pk : n \in DOMAIN u.pk /\ u.pk[n] = s.pk[n]
             /\ (e.op \in {"req", "reqv", "reqo", "prov", "provd"} => u.fs = s.fs /\ u.dirs = s.dirs)
             /\ (e.op \in {"info", "has", "dirs", "write", "remove", "setup"} => u.pk = s.pk))
=============================================================================
