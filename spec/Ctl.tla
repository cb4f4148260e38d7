--------------------------------- MODULE Ctl ---------------------------------
(* Control flow: the meaning of statement nestings as an abstract machine.
   A program is [main |-> statements, fns |-> sequence of function bodies, bits, nums]: d() in a condition takes the
   next of bits (FALSE when there are none left, so every program ends), n() the next of nums.
   Exec yields the completion (normal, break, continue, return, throw) and the machine state: input positions,
   the output so far, and the catch variables of the running activation.                                         *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Normal == [k |-> "n", l |-> "", v |-> ""]
Compl(k, l, v) == [k |-> k, l |-> l, v |-> v]
Out(m, tok) == [m EXCEPT !.out = Append(@, tok)]
Bit(m) == IF m.bi <= Len(m.bits) THEN m.bits[m.bi] ELSE FALSE
NumV(m) == IF m.ni <= Len(m.nums) THEN m.nums[m.ni] ELSE 0
TakeBit(m) == [m EXCEPT !.bi = @ + 1]
TakeNum(m) == [m EXCEPT !.ni = @ + 1]

\* a break or continue that names no label, or one of this statement's labels, is meant for this loop
ForMe(c, labels) == c.l = "" \/ c.l \in labels

RECURSIVE Exec(_, _, _, _), Seq_(_, _, _), While(_, _, _, _), For(_, _, _, _), Each(_, _, _, _, _), Cases(_, _, _, _), Eval(_, _, _)

\* Statements in order until one completes abruptly
Seq_(ss, m, fns) ==
  IF ss = <<>> THEN [c |-> Normal, m |-> m]
  ELSE LET r == Exec(ss[1], m, fns, {}) IN
       IF r.c.k # "n" THEN r ELSE Seq_(Tail(ss), r.m, fns)

\* expressions: constants, catch variables, calls
Eval(x, m, fns) ==
  CASE x.k = "c" -> [c |-> Normal, m |-> m, v |-> x.v]
    \* an error of the interpreter's own: thrown with its message
    [] x.k = "err" -> [c |-> Compl("t", "", "can not execute expression: 'nosuch' not a function"), m |-> m, v |-> "u"]
    [] x.k = "e" -> [c |-> Normal, m |-> m, v |-> m.env[x.i]]
    \* a name that is a global variable and a member of the objects of with statements: the innermost one entered in
    \* the running activation counts
    [] x.k = "w" -> [c |-> Normal, m |-> m, v |-> m.w]
    [] x.k = "call" ->
         LET r == Seq_(fns[x.f], [m EXCEPT !.env = [i \in 1..Len(m.env) |-> "u"], !.w = "w0"], fns)
             m2 == [r.m EXCEPT !.env = m.env, !.w = m.w]
         IN IF r.c.k = "t" THEN [c |-> r.c, m |-> m2, v |-> "u"]
            ELSE [c |-> Normal, m |-> m2, v |-> IF r.c.k = "r" THEN r.c.v ELSE "u"]

While(s, m, fns, labels) ==
  IF ~Bit(m) THEN [c |-> Normal, m |-> TakeBit(m)]
  ELSE LET r == Seq_(s.b, TakeBit(m), fns) IN
       IF r.c.k = "b" /\ ForMe(r.c, labels) THEN [c |-> Normal, m |-> r.m]
       ELSE IF r.c.k = "n" \/ (r.c.k = "c" /\ ForMe(r.c, labels)) THEN While(s, r.m, fns, labels)
       ELSE r

\* for (...; d(); step): the step runs after every iteration that continues
For(s, m, fns, labels) ==
  IF ~Bit(m) THEN [c |-> Normal, m |-> TakeBit(m)]
  ELSE LET r == Seq_(s.b, TakeBit(m), fns) IN
       IF r.c.k = "b" /\ ForMe(r.c, labels) THEN [c |-> Normal, m |-> r.m]
       ELSE IF r.c.k = "n" \/ (r.c.k = "c" /\ ForMe(r.c, labels)) THEN For(s, Out(r.m, s.step), fns, labels)
       ELSE r

\* for-in over the keys of an object, for-of over the elements of an array
Each(keys, s, m, fns, labels) ==
  IF keys = <<>> THEN [c |-> Normal, m |-> m]
  ELSE LET r == Seq_(s.b, Out(m, s.t \o keys[1]), fns) IN
       IF r.c.k = "b" /\ ForMe(r.c, labels) THEN [c |-> Normal, m |-> r.m]
       ELSE IF r.c.k = "n" \/ (r.c.k = "c" /\ ForMe(r.c, labels)) THEN Each(Tail(keys), s, r.m, fns, labels)
       ELSE r

\* switch bodies from case number i on (fall through)
Cases(cs, i, m, fns) ==
  IF i > Len(cs) THEN [c |-> Normal, m |-> m]
  ELSE LET r == Seq_(cs[i].b, m, fns) IN
       IF r.c.k # "n" THEN r ELSE Cases(cs, i + 1, r.m, fns)

\* finally: runs when the rest completed, broke out, continued or threw, and replaces that completion only by an abrupt
\* one of its own.  A return leaves the function at once, without the finally parts around it (tests/tryreturn.jsi
\* prescribes this; ECMAScript would run them).
ReturnSkipsFinally == TRUE
Finally(s, r, fns) ==
  IF ~s.hasf \/ (ReturnSkipsFinally /\ r.c.k = "r") THEN r
  ELSE LET f == Seq_(s.f, Out(r.m, "F" \o s.id), fns) IN
       IF f.c.k = "n" THEN [c |-> r.c, m |-> f.m] ELSE f

Exec(s, m, fns, labels) ==
  CASE s.k = "log" -> [c |-> Normal, m |-> Out(m, s.t)]
    [] s.k = "logx" -> LET x == Eval(s.x, m, fns) IN
                       IF x.c.k # "n" THEN [c |-> x.c, m |-> x.m] ELSE [c |-> Normal, m |-> Out(x.m, "=" \o x.v)]
    \* with: its object is part of the scope until the statement is left, in whatever way
    [] s.k = "with" -> LET r == Seq_(s.b, [m EXCEPT !.w = s.w], fns) IN [c |-> r.c, m |-> [r.m EXCEPT !.w = m.w]]
    [] s.k = "block" -> Seq_(s.b, m, fns)
    [] s.k = "if" -> IF Bit(m) THEN Seq_(s.b, TakeBit(m), fns) ELSE Seq_(s.e, TakeBit(m), fns)
    [] s.k = "while" -> While(s, m, fns, labels)
    [] s.k = "do" ->
         LET r == Seq_(s.b, m, fns) IN
         IF r.c.k = "b" /\ ForMe(r.c, labels) THEN [c |-> Normal, m |-> r.m]
         ELSE IF r.c.k = "n" \/ (r.c.k = "c" /\ ForMe(r.c, labels))
              THEN IF Bit(r.m) THEN Exec(s, TakeBit(r.m), fns, labels) ELSE [c |-> Normal, m |-> TakeBit(r.m)]
         ELSE r
    [] s.k = "for" -> For(s, m, fns, labels)
    [] s.k = "each" -> Each(s.keys, s, m, fns, labels)
    [] s.k = "switch" ->
         LET n == NumV(m)
             m1 == TakeNum(m)
             hit == {i \in 1..Len(s.cs) : ~s.cs[i].d /\ s.cs[i].n = n}
             dflt == {i \in 1..Len(s.cs) : s.cs[i].d}
             from == IF hit # {} THEN CHOOSE i \in hit : \A j \in hit : i <= j
                     ELSE IF dflt # {} THEN CHOOSE i \in dflt : TRUE ELSE Len(s.cs) + 1
             r == Cases(s.cs, from, m1, fns)
         IN IF r.c.k = "b" /\ ForMe(r.c, labels) THEN [c |-> Normal, m |-> r.m] ELSE r
    [] s.k = "label" ->
         LET r == Exec(s.s, m, fns, labels \cup {s.l}) IN
         IF r.c.k = "b" /\ r.c.l = s.l THEN [c |-> Normal, m |-> r.m] ELSE r
    [] s.k = "break" -> [c |-> Compl("b", s.l, ""), m |-> m]
    [] s.k = "continue" -> [c |-> Compl("c", s.l, ""), m |-> m]
    [] s.k = "return" -> LET x == Eval(s.x, m, fns) IN
                         [c |-> IF x.c.k # "n" THEN x.c ELSE Compl("r", "", x.v), m |-> [x.m EXCEPT !.rets = @ + 1]]
    [] s.k = "throw" -> LET x == Eval(s.x, m, fns) IN
                        [c |-> IF x.c.k # "n" THEN x.c ELSE Compl("t", "", x.v), m |-> x.m]
    [] s.k = "try" ->
         LET r == Seq_(s.b, Out(m, "T" \o s.id), fns)
             h == IF r.c.k = "t" /\ s.hasc
                  THEN Seq_(s.c, [Out(r.m, "C" \o s.id) EXCEPT !.env[s.i] = r.c.v], fns)
                  ELSE r
         IN Finally(s, h, fns)

Run(p) ==
  LET m0 == [bits |-> p.bits, nums |-> p.nums, bi |-> 1, ni |-> 1, rets |-> 0, out |-> <<>>, w |-> "w0", env |-> [i \in 1..9 |-> "u"]]
      r == Seq_(p.main, m0, p.fns)
  IN [rets |-> r.m.rets, out |-> Append(r.m.out, CASE r.c.k = "t" -> "U" \o r.c.v [] r.c.k = "r" -> "R" \o r.c.v [] OTHER -> "Ru")]

\* every entry of a try statement is followed by exactly one run of its finally part, or by none if something returned
Count(out, tok) == Cardinality({i \in 1..Len(out) : out[i] = tok})
FinallyOnce(o) == \A i \in 1..30 :
  LET f == Count(o.out, "F" \o ToString(i)) t == Count(o.out, "T" \o ToString(i)) IN
  f # 0 => f <= t /\ (o.rets = 0 => f = t)

Init0 == "s"
Inv(s) == TRUE
Do(s, e) == LET o == Run(e.a[1]) IN
            {[s |-> s, r |-> IF Assert(FinallyOnce(o), <<"finally", e.a>>) THEN o.out ELSE <<>>]}
=============================================================================
