--------------------------------- MODULE Typed ---------------------------------
(* Functions with declared parameter types, defaults and return types, and calls of them; and the published signatures of
   built-in functions.  Values are named: "n5" is a number, "s1" a string, ... (TypeOf).
   A function's declaration is [ps, va, ret]: ps a sequence of [ty, d] (accepted types - {} is anything but undefined - and the
   default, "" if none), va whether further arguments are accepted, ret the types that may be returned ({}: any).
   A call's result is <<outcome, value, log>>: log is what bodies saw - that no body runs that should not, and no later one.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Sigs
Vals == <<<<"n5", "number">>, <<"nm", "number">>, <<"s1", "string">>, <<"s0", "string">>, <<"bT", "boolean">>, <<"bF", "boolean">>, <<"a1", "array">>, <<"a0", "array">>,
          <<"o1", "object">>, <<"f", "function">>, <<"r", "regexp">>, <<"x", "userobj">>, <<"z", "null">>, <<"u", "undefined">>>>
Ids == {Vals[i][1] : i \in 1..Len(Vals)}
TypeOf(v) == Vals[CHOOSE i \in 1..Len(Vals) : Vals[i][1] = v][2]
NF == 4
NoFn == [ps |-> <<>>, va |-> FALSE, ret |-> {}, on |-> FALSE]
S0 == [fn |-> [i \in 1..NF |-> NoFn], tot |-> 0]
\* types a parameter accepts
Types(p) == IF p.d \in {"", "void"} THEN p.ty ELSE p.ty \cup {TypeOf(p.d)}
Accepts(p, v) == LET ty == Types(p) IN
                 IF "any" \in ty THEN TRUE
                 ELSE IF TypeOf(v) = "undefined" THEN "undefined" \in ty
                 ELSE ty \ {"void"} = {} \/ TypeOf(v) \in ty
Least(d) == LET q == {i \in 1..Len(d.ps) : d.ps[i].d # ""} IN IF q = {} THEN Len(d.ps) ELSE (CHOOSE i \in q : \A j \in q : i <= j) - 1
Fits(d, args) == /\ Len(args) >= Least(d)
                 /\ d.va \/ Len(args) <= Len(d.ps)
                 /\ \A i \in 1..Len(args) : i <= Len(d.ps) => Accepts(d.ps[i], args[i])
Seen(d, args) == [i \in 1..Len(d.ps) |-> IF i <= Len(args) THEN args[i] ELSE IF d.ps[i].d \in {"void", ""} THEN "u" ELSE d.ps[i].d]
Returns(d, v) == \/ d.ret = {} \/ "any" \in d.ret
                 \/ IF TypeOf(v) = "undefined" THEN "void" \in d.ret ELSE TypeOf(v) \in d.ret
\* [st, v, log] of calling function i with args, its body doing the calls in todo (a sequence of [f, args, rv]) and returning rv
RECURSIVE Call(_, _, _, _, _, _)
Call(s, i, args, rv, todo, cons) ==
  LET d == s.fn[i]
      me == <<ToString(i), ToString(Len(args))>> \o Seen(d, args) \o <<"|">> \o args
      in == IF todo = <<>> THEN <<>>
            ELSE LET c == Call(s, todo[1].f, todo[1].args, todo[1].rv, Tail(todo), FALSE) IN c.log \o <<<<"in", c.st, c.v>>>> \o <<me>>
  IN IF ~d.on \/ ~Fits(d, args) THEN [st |-> "e", v |-> "", log |-> <<>>]
     ELSE [st |-> IF Returns(d, rv) THEN "ok" ELSE "e", v |-> IF cons THEN "" ELSE IF Returns(d, rv) THEN rv ELSE "", log |-> <<me>> \o in]
Out(s, c) == [s |-> [s EXCEPT !.tot = @ + Len(SelectSeq(c.log, LAMBDA x : x[1] # "in"))], r |-> <<c.st, c.v, c.log>>]
\* ------ built-in functions
Sig(n) == Sigs[CHOOSE i \in 1..Len(Sigs) : Sigs[i].n = n]
PAcc(ty, v) == IF ty = {} THEN IF v = "u" THEN {TRUE, FALSE} ELSE {TRUE}
               ELSE IF "any" \in ty \/ TypeOf(v) \in ty THEN {TRUE}
               ELSE IF "?any" \in ty \/ ("?" \o TypeOf(v)) \in ty THEN {TRUE, FALSE} ELSE {FALSE}
BVerdict(g, args) == IF Len(args) < g.lo \/ (g.hi >= 0 /\ Len(args) > g.hi) \/ \E i \in 1..Len(args) : i <= Len(g.ps) /\ TRUE \notin PAcc(g.ps[i], args[i]) THEN "no"
                     ELSE IF \E i \in 1..Len(args) : i <= Len(g.ps) /\ FALSE \in PAcc(g.ps[i], args[i]) THEN "maybe" ELSE "yes"
Do(s, e) ==
  LET a == e.a IN
  CASE e.op = "def" -> {[s |-> [s EXCEPT !.fn[a[1]] = [ps |-> [i \in 1..Len(a[2]) |-> [ty |-> Range(a[2][i].ty), d |-> a[2][i].d]], va |-> a[3], ret |-> Range(a[4]), on |-> TRUE]], r |-> <<"ok">>]}
    \* i, form, args, returned value, calls made within
    [] e.op = "call" -> {Out(s, Call(s, a[1], a[3], a[4], a[5], FALSE))}
    [] e.op = "new" -> {Out(s, Call(s, a[1], a[3], a[4], a[5], TRUE))}
    \* the first argument is the value another call returns
    [] e.op = "arg" -> LET c1 == Call(s, a[3], a[4], a[5], <<>>, FALSE)
                           c2 == Call(s, a[1], <<c1.v>> \o a[2], a[6], <<>>, FALSE)
                       IN {IF c1.st = "e" THEN Out(s, c1) ELSE Out(s, [c2 EXCEPT !.log = c1.log \o @])}
    [] e.op = "tot" -> {[s |-> s, r |-> <<s.tot>>]}
    [] e.op = "b" -> LET g == Sig(a[1])
                         v == BVerdict(g, a[2])
                     IN {[s |-> s, r |-> <<x>>] : x \in IF v = "no" THEN {"t", "e"} ELSE IF v = "yes" THEN {"o", "e"} ELSE {"o", "t", "e"}}
Inv(s) == s.tot >= 0
\* no body runs unless the arguments fit, and only definitions change functions
StepInv(s, e, t) == /\ e.op # "def" => t.fn = s.fn
                    /\ e.op \in {"call", "new"} /\ ~Fits(s.fn[e.a[1]], e.a[3]) => t = s
                    /\ e.op \in {"b", "tot", "def"} => t.tot = s.tot
=============================================================================
