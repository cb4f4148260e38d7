-------------------------------- MODULE Suite --------------------------------
\* The test runner (jsish -u): what a test script prints, the comparison with its EXPECT block, updates of the block, and the number of failures.
\* A test file: body   the statements: [k |-> kind, x |-> text, y |-> text]
\*              blk    "no" or "yes": has an EXPECT block, exp its text
\*              args   the arguments of its ARG block ("" none), inp the lines of its INPUT block
\* The state: fs  name -> file; tx  name -> text of other files (for -expectFile and, as lines, -inFile)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [x \in {} |-> 0]
S0 == [fs |-> None, tx |-> None]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Scripts == {"a.jsi", "b.jsi", "c.js", "d.jsi"}          \* the other names have an extension the runner refuses
RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN "" ELSE ls[1] \o "\n" \o Join(Tail(ls))

\* running a body; y: [out, inp, g, bad, mark, fail]: g the script's own counter, bad: it ended with an error, mark: '*/' was printed, fail: an expected exception is missing
RECURSIVE Body(_, _, _)
Body(y, b, args) ==
  IF b = <<>> \/ y.bad THEN y
  ELSE LET t == b[1]
           say(z, x) == [z EXCEPT !.out = @ \o x]
           z == CASE t.k = "puts" -> say(y, t.x \o "\n")
                  [] t.k = "mark" -> [say(y, "*/\n") EXCEPT !.mark = TRUE]
                  [] t.k = "printf" -> say(y, t.x)
                  [] t.k = "expr" -> say(y, t.x \o " ==> " \o t.y \o "\n")
                  [] t.k = "note" -> say(y, t.x \o "\n")
                  [] t.k = "throws" -> say(y, t.x \o " ==>\n[PASS]!: err = " \o t.y \o "\n")
                  [] t.k = "nothrow" -> [say(y, t.x \o " ==>\n[FAIL]!: expected a throw\n\n") EXCEPT !.fail = TRUE]
                  [] t.k = "read" -> IF y.inp = <<>> THEN say(y, "END\n") ELSE [say(y, "<" \o y.inp[1] \o ">\n") EXCEPT !.inp = Tail(@)]
                  [] t.k = "args" -> say(y, args \o "\n")
                  [] t.k = "count" -> [say(y, "G ==> " \o ToString(y.g + 1) \o "\n") EXCEPT !.g = @ + 1]
                  [] OTHER -> [y EXCEPT !.bad = TRUE]                                   \* die: an exception nobody catches
       IN Body(z, Tail(b), args)
Syntax(b) == \E j \in 1..Len(b) : b[j].k = "syntax"
Exc(b) == \E j \in 1..Len(b) : b[j].k \in {"throws", "nothrow"}
\* o: [mode |-> "in"/"exec", args |-> text, inf, expf |-> name or "", fmax |-> number, silent, force |-> BOOLEAN]
Play(st, f, o) ==
  LET a == IF o.args # "" THEN o.args ELSE f.args
      i == IF o.inf # "" /\ st.tx[o.inf] # <<>> THEN st.tx[o.inf] ELSE f.inp
  IN Body([out |-> "", inp |-> i, g |-> 0, bad |-> Syntax(f.body), mark |-> FALSE, fail |-> FALSE], f.body, a)
V(n, v) == [n |-> n, v |-> v]
\* one test: [v: the verdict, fs]; "abort" ends the whole run
One(st, n, o, upd) ==
  IF n \notin Scripts \/ n \notin DOMAIN st.fs THEN [v |-> "abort", fs |-> st.fs]
  ELSE LET f == st.fs[n]
           y == Play(st, f, o)
           want == IF f.blk = "yes" THEN <<f.exp>> ELSE IF o.expf # "" THEN <<Join(st.tx[o.expf])>> ELSE <<>>
       IN IF f.blk = "no" /\ ~upd /\ Exc(f.body) THEN [v |-> "needs", fs |-> st.fs]
          ELSE IF y.bad THEN [v |-> "FAIL", fs |-> st.fs]
          ELSE IF ~upd THEN [v |-> IF want = <<>> \/ want = <<y.out>> THEN "PASS" ELSE "FAIL", fs |-> st.fs]
          ELSE IF y.fail /\ ~o.force THEN [v |-> "refused", fs |-> st.fs]
          ELSE IF y.mark THEN [v |-> "abort", fs |-> st.fs]
          ELSE IF f.blk = "no" THEN [v |-> "Created", fs |-> Put(st.fs, n, [f EXCEPT !.blk = "yes", !.exp = y.out])]
          ELSE IF f.exp = y.out THEN [v |-> "Unchanged", fs |-> st.fs]
          ELSE [v |-> "Updated", fs |-> Put(st.fs, n, [f EXCEPT !.exp = y.out])]
Failure(v) == v \in {"FAIL", "needs", "refused"}
RECURSIVE Run(_, _, _, _, _, _, _)
Run(st, ns, o, upd, vs, fails, cnt) ==
  IF ns = <<>> \/ (o.fmax > 0 /\ fails >= o.fmax) THEN [st |-> st, vs |-> vs, code |-> fails, f |-> fails, p |-> cnt - fails]
  ELSE LET r == One(st, ns[1], o, upd)
           nf == fails + (IF Failure(r.v) THEN 1 ELSE 0)
           shown == IF o.silent /\ r.v = "PASS" THEN vs ELSE Append(vs, V(ns[1], r.v))
       IN IF r.v = "abort" THEN [st |-> [st EXCEPT !.fs = r.fs], vs |-> vs, code |-> 1, f |-> -1, p |-> -1]
          ELSE Run([st EXCEPT !.fs = r.fs], Tail(ns), o, upd, shown, nf, cnt + 1)
R(c, vs, f, p, t) == [code |-> c, vs |-> vs, f |-> f, p |-> p, t |-> t]
Sorted == <<"a.jsi", "b.jsi", "c.js", "d.jsi">>
In(st) == SelectSeq(Sorted, LAMBDA n : n \in DOMAIN st.fs)

O0 == [mode |-> "in", args |-> "", inf |-> "", expf |-> "", fmax |-> 0, silent |-> FALSE, force |-> FALSE]
F0 == [body |-> <<>>, blk |-> "no", exp |-> "", args |-> "", inp |-> <<>>]
\* an op: a = <<names, file, options>>
Do(st, e) ==
  LET ns == e.a[1]
      f == e.a[2]
      o == e.a[3]
      n == ns[1]
      nil == R(0, <<>>, -1, -1, "")
      one(x, r) == {[s |-> x, r |-> r]}
      done(upd, l) == LET r == Run(st, l, o, upd, <<>>, 0, 0)
                          sum == ~o.silent /\ r.f + r.p > 1
                      IN one(r.st, R(r.code, r.vs, IF sum THEN r.f ELSE -1, IF sum THEN r.p ELSE -1, ""))
  IN IF (o.inf # "" /\ o.inf \notin DOMAIN st.tx) \/ (o.expf # "" /\ o.expf \notin DOMAIN st.tx) THEN {}
     ELSE CASE e.op = "write" -> one([st EXCEPT !.fs = Put(@, n, f)], nil)
       [] e.op = "text" -> one([st EXCEPT !.tx = Put(@, n, f.inp)], nil)
       [] e.op = "remove" -> one([st EXCEPT !.fs = Del(@, n)], nil)
       [] e.op = "run" -> done(FALSE, ns)
       [] e.op = "update" -> done(TRUE, ns)
       [] e.op = "rundir" -> done(FALSE, In(st))
       [] e.op = "upddir" -> done(TRUE, In(st))
       [] n \notin DOMAIN st.fs -> {}
       [] e.op = "expect" -> one([st EXCEPT !.fs[n].blk = f.blk, !.fs[n].exp = f.exp], nil)        \* somebody edits the block
       [] e.op = "show" -> LET y == Play(st, st.fs[n], o) IN IF y.bad THEN {} ELSE one(st, R(0, <<>>, -1, -1, y.out))
       [] e.op = "block" -> one(st, R(0, <<>>, -1, -1, IF st.fs[n].blk = "yes" THEN "=" \o st.fs[n].exp ELSE ""))
       [] OTHER -> {}
Inv(st) == \A n \in DOMAIN st.fs : st.fs[n].blk = "no" => st.fs[n].exp = ""
\* only update changes a file, and only its EXPECT block; a test that was just updated passes; running tests changes nothing
StepInv(st, e, ns) ==
  /\ e.op \in {"run", "rundir", "show", "block"} => ns = st
  /\ e.op \in {"update", "upddir"} => \A n \in DOMAIN st.fs : [ns.fs[n] EXCEPT !.blk = "", !.exp = ""] = [st.fs[n] EXCEPT !.blk = "", !.exp = ""]
  /\ e.op = "update" => \A o \in Do(st, e) : \A j \in 1..Len(o.r.vs) : o.r.vs[j].v \in {"Created", "Updated", "Unchanged"} => One(ns, o.r.vs[j].n, e.a[3], FALSE).v = "PASS"
=============================================================================
