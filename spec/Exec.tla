--------------------------------- MODULE Exec ---------------------------------
\* exec: commands run by the shell (sequences of simple steps) or without it, with their input, output, status and options.
\* Texts are sequences of characters; "BIG" stands for 70000 times a B.
\* The state: fs  the files: <<folder, name>> -> text, bg  the commands waiting in the background: [d |-> folder, c |-> steps]
EXTENDS Integers, Sequences, FiniteSets
None == [x \in {} |-> <<>>]
S0 == [fs |-> None, bg |-> <<>>]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Has(sq, x) == \E j \in 1..Len(sq) : sq[j] = x
Blank == {" ", "\n", "\t"}
RECURSIVE Trim(_), Take(_, _)
Trim(t) == IF t # <<>> /\ t[Len(t)] \in Blank THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
Take(n, t) == IF n = 0 \/ t = <<>> THEN <<>> ELSE IF t[1] = "BIG" THEN [j \in 1..n |-> "B"] ELSE <<t[1]>> \o Take(n - 1, Tail(t))
Tr(t) == [j \in 1..Len(t) |-> IF t[j] = "a" THEN "b" ELSE t[j]]
Old(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE <<>>

\* y: [fs, out, inp, code, sig, done]; a step: [k |-> kind, x |-> text, f |-> file, n |-> number]
Step(y, d, t) ==
  LET p == <<d, t.f>>
      ok(z) == [z EXCEPT !.code = 0]
  IN CASE t.k = "out" -> ok([y EXCEPT !.out = @ \o t.x])
       [] t.k = "big" -> ok([y EXCEPT !.out = @ \o <<"BIG">>])
       [] t.k = "wr" -> ok([y EXCEPT !.fs = Put(@, p, t.x)])
       [] t.k = "app" -> ok([y EXCEPT !.fs = Put(@, p, Old(@, p) \o t.x)])
       [] t.k = "cat" -> IF p \in DOMAIN y.fs THEN ok([y EXCEPT !.out = @ \o y.fs[p]]) ELSE [y EXCEPT !.code = 1]
       [] t.k = "rm" -> ok([y EXCEPT !.fs = Del(@, p)])
       [] t.k = "in" -> ok([y EXCEPT !.fs = Put(@, p, y.inp), !.inp = <<>>])
       [] t.k = "head" -> ok([y EXCEPT !.fs = Put(@, p, Take(t.n, y.inp)), !.inp = <<>>])
       [] t.k = "pipe" -> ok([y EXCEPT !.out = @ \o Tr(t.x)])
       [] t.k \in {"err", "true"} -> ok(y)
       [] t.k = "false" -> [y EXCEPT !.code = 1]
       [] t.k = "nosuch" -> [y EXCEPT !.code = 127]
       [] t.k = "exit" -> [y EXCEPT !.code = t.n, !.done = TRUE]
       [] OTHER -> [y EXCEPT !.code = 128 + t.n, !.sig = t.n, !.done = TRUE]       \* sig: killed by it
RECURSIVE Steps(_, _, _)
Steps(y, d, c) == IF c = <<>> \/ y.done THEN y ELSE Steps(Step(y, d, c[1]), d, Tail(c))
\* a single program run without the shell
Prog(y, d, w) ==
  LET p == w[1].x IN
  CASE p = <<"echo">> -> [y EXCEPT !.out = LET RECURSIVE J(_)
                                             J(v) == IF v = <<>> THEN <<"\n">> ELSE v[1].x \o (IF Len(v) > 1 THEN <<" ">> ELSE <<>>) \o J(Tail(v))
                                         IN J(Tail(w))]
    [] p = <<"cat">> -> Step(y, d, [k |-> "cat", x |-> <<>>, f |-> w[2].f, n |-> 0])
    [] p = <<"dd">> -> Step(y, d, [k |-> "in", x |-> <<>>, f |-> w[2].f, n |-> 0])
    [] p = <<"true">> -> y
    [] p = <<"false">> -> [y EXCEPT !.code = 1]
    [] OTHER -> [y EXCEPT !.code = 127]

Special == {"<", ">", "|", ";", "&", "$", "`", "="}
Odd(t) == t.k \in {"wr", "app", "in", "head", "pipe", "err", "big", "sig"} \/ (\E j \in 1..Len(t.x) : t.x[j] \in Special) \/ (t.k = "w" /\ t.x = <<"dd">>)
R(k, c, g, t) == [k |-> k, code |-> c, sig |-> g, out |-> t]
Err == R("err", 0, 0, <<>>)
\* what exec gives back
Back(y, o) ==
  LET t == IF Has(o, "trim") THEN Trim(y.out) ELSE y.out
      input == Has(o, "input") \/ Has(o, "inputs")
  IN IF Has(o, "retAll") THEN R("ok", y.code, y.sig, IF input THEN <<>> ELSE t)
     ELSE IF Has(o, "retCode") \/ input THEN R("ok", y.code, 0, <<>>)
     ELSE IF y.code # 0 /\ ~Has(o, "noError") THEN Err
     ELSE R("ok", 0, 0, t)
\* e.a = <<steps or words, options, text>>
Do(s, e) ==
  LET c == e.a[1]
      o == e.a[2]
      one(st, r) == {[s |-> st, r |-> r]}
      d == IF Has(o, "cd") THEN "sub" ELSE "."
      y0 == [fs |-> s.fs, out |-> <<>>, inp |-> IF Has(o, "input") \/ Has(o, "inputs") THEN e.a[3] ELSE <<>>, code |-> 0, sig |-> 0, done |-> FALSE]
      input == Has(o, "input") \/ Has(o, "inputs")
      back == Has(o, "bg") \/ Has(o, "amp")
      no == \/ Has(o, "bad") \/ Has(o, "cdbad")
            \/ Has(o, "noRedir") /\ ((Len(c) > 1 /\ e.op = "exec") \/ Has(o, "amp") \/ (\E j \in 1..Len(c) : Odd(c[j])))
            \/ back /\ (input \/ e.op = "nosh")
  IN CASE e.op = "put" -> one([s EXCEPT !.fs = Put(@, <<o[1], o[2]>>, e.a[3])], R("ok", 0, 0, <<>>))
       [] e.op = "read" -> IF <<o[1], o[2]>> \in DOMAIN s.fs THEN one(s, R("ok", 0, 0, s.fs[<<o[1], o[2]>>])) ELSE one(s, Err)
       [] e.op = "go" -> IF s.bg = <<>> THEN one(s, R("ok", 0, 0, <<>>))
                         ELSE one([s EXCEPT !.bg = <<>>, !.fs = Steps([y0 EXCEPT !.inp = <<>>], s.bg[1].d, s.bg[1].c).fs], R("ok", 1, 0, <<>>))
       [] e.op \in {"exec", "nosh"} ->
            IF no THEN one(s, Err)
            ELSE IF back THEN (IF s.bg = <<>> THEN one([s EXCEPT !.bg = <<[d |-> d, c |-> c]>>], R("ok", 0, 0, <<>>)) ELSE {})
            ELSE LET y == IF e.op = "exec" THEN Steps(y0, d, c) ELSE Prog(y0, d, c) IN one([s EXCEPT !.fs = y.fs], Back(y, o))
       [] OTHER -> {}
Inv(s) == Len(s.bg) <= 1
\* a command in the background changes nothing before it is let go; a refused one nothing at all; without noError, retCode, retAll or input
\* a failing command is an error
StepInv(s, e, s2) == /\ (e.op = "exec" /\ (Has(e.a[2], "bg") \/ Has(e.a[2], "amp"))) => s2.fs = s.fs
                     /\ (e.op = "exec" /\ (Has(e.a[2], "bad") \/ Has(e.a[2], "cdbad"))) => s2 = s
                     /\ e.op = "read" => s2 = s
================================================================================
