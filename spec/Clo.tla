-------------------------------- MODULE Clo --------------------------------
(* Functions, scopes and this.  State: activation frames [vars, up, this, np, argv] (frame 1 is the global one; np the names of
   the parameters, argv the arguments passed, which the parameters are another name for), closures [code, frame] or bound
   closures, objects, and the number of calls left before a program gives up.  Every event evaluates one expression in
   the global frame of the state all previous events left.
   Expressions: num var set add log this obj getp setp fun call mcall via bind new try throw arg setarg argc.        *)
EXTENDS Integers, Sequences, TLC
UNDEF == <<"u">>
Fuel == 30
NoFun == [kind |-> "fun", params |-> <<>>, defs |-> <<>>, locals |-> <<>>, body |-> <<>>, frame |-> 0, target |-> 0, bthis |-> UNDEF, bargs |-> <<>>]
Token(v) == CASE v[1] = "n" -> "n" \o ToString(v[2]) [] v[1] = "f" -> "f" [] v[1] = "o" -> "o" [] OTHER -> "u"
Abs(i) == IF i < 0 THEN 0 - i ELSE i
RECURSIVE Find(_, _, _)
Find(fr, f, x) ==    \* the frame in which the variable is, 0 if in none
  IF f = 0 THEN 0
  ELSE IF (\E i \in 1..Len(fr[f].np) : fr[f].np[i] = x) \/ x \in DOMAIN fr[f].vars THEN f
  ELSE Find(fr, fr[f].up, x)
Pos(f, x) == LET I == {i \in 1..Len(f.np) : f.np[i] = x /\ i <= Len(f.argv)} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Read(s, fi, x) == LET f == s.fr[fi] p == Pos(f, x) IN IF p > 0 THEN f.argv[p] ELSE f.vars[x]
Write(s, fi, x, v) == LET p == Pos(s.fr[fi], x)
                      IN IF p > 0 THEN [s EXCEPT !.fr[fi].argv[p] = v] ELSE [s EXCEPT !.fr[fi].vars[x] = v]
Exc(s) == [s EXCEPT !.x = TRUE]
Val(s, v) == [s EXCEPT !.v = v]
RECURSIVE Eval(_, _, _), EvalAll(_, _, _, _), Call(_, _, _, _), Locals(_, _, _), Body(_, _, _)
EvalAll(s, es, f, acc) == IF s.x \/ es = <<>> THEN <<s, acc>>
                          ELSE LET t == Eval(s, Head(es), f) IN EvalAll(t, Tail(es), f, Append(acc, t.v))
Locals(s, ls, f) == IF s.x \/ ls = <<>> THEN s
                    ELSE LET t == Eval(s, Head(ls)[2], f)
                         IN IF t.x THEN t ELSE Locals([t EXCEPT !.fr[f].vars[Head(ls)[1]] = t.v], Tail(ls), f)
Body(s, es, f) == IF s.x \/ es = <<>> THEN s ELSE Body(Eval(s, Head(es), f), Tail(es), f)
Required(c) == Len(SelectSeq(c.defs, LAMBDA d : d = <<>>))
Call(s, fv, args, this) ==
  IF s.x THEN s
  ELSE IF fv[1] # "f" THEN Exc(s)
  ELSE LET c == s.fn[fv[2]] IN
    IF c.kind = "bound" THEN Call(s, <<"f", c.target>>, c.bargs \o args, c.bthis)
    ELSE IF Len(args) > Len(c.params) \/ Len(args) < Required(c) THEN Exc(s)
    ELSE IF s.fuel = 0 THEN Exc(s)
    ELSE LET names == {c.locals[i][1] : i \in 1..Len(c.locals)}
             miss == {i \in 1..Len(c.params) : i > Len(args)}
             vars == [x \in names \cup {c.params[i] : i \in miss} |->
                        IF x \in names THEN UNDEF ELSE c.defs[CHOOSE i \in miss : c.params[i] = x][1]]
             g == [vars |-> vars, up |-> c.frame, this |-> this, np |-> c.params, argv |-> args]
             n == Len(s.fr) + 1
             t == [s EXCEPT !.fr = Append(@, g), !.fuel = @ - 1]
         IN Body(Locals(t, c.locals, n), c.body, n)
NewFun(s, c) == [s EXCEPT !.fn = Append(@, c), !.v = <<"f", Len(s.fn) + 1>>]
Eval(s, e, f) ==
  IF s.x THEN s ELSE
  CASE e[1] = "num" -> Val(s, <<"n", e[2]>>)
    [] e[1] = "var" -> Val(s, Read(s, Find(s.fr, f, e[2]), e[2]))
    [] e[1] = "set" -> LET t == Eval(s, e[3], f) IN IF t.x THEN t ELSE Write(t, Find(t.fr, f, e[2]), e[2], t.v)
    [] e[1] = "add" -> LET t == Eval(s, e[2], f) u == Eval(t, e[3], f)
                       IN IF u.x THEN u ELSE IF t.v[1] # "n" \/ u.v[1] # "n" THEN Exc(u) ELSE Val(u, <<"n", (t.v[2] + u.v[2]) % 1000>>)
    [] e[1] = "log" -> LET t == Eval(s, e[2], f) IN IF t.x THEN t ELSE [t EXCEPT !.log = Append(@, Token(t.v))]
    [] e[1] = "this" -> Val(s, s.fr[f].this)
    [] e[1] = "obj" -> LET r == EvalAll(s, <<e[2], e[3]>>, f, <<>>)
                       IN IF r[1].x THEN r[1] ELSE [r[1] EXCEPT !.ob = Append(@, [zp |-> r[2][1], zm |-> r[2][2]]), !.v = <<"o", Len(r[1].ob) + 1>>]
    [] e[1] = "getp" -> LET t == Eval(s, e[2], f) IN IF t.x THEN t ELSE IF t.v[1] # "o" THEN Exc(t) ELSE Val(t, t.ob[t.v[2]][e[3]])
    [] e[1] = "setp" -> LET t == Eval(s, e[2], f) u == Eval(t, e[4], f)
                        IN IF u.x THEN u ELSE IF t.v[1] # "o" THEN Exc(u) ELSE [u EXCEPT !.ob[t.v[2]][e[3]] = u.v]
    [] e[1] = "fun" -> NewFun(s, [NoFun EXCEPT !.params = e[3], !.defs = e[4], !.locals = e[5], !.body = e[6], !.frame = f])
    [] e[1] = "call" -> LET t == Eval(s, e[2], f) r == EvalAll(t, e[3], f, <<>>) IN Call(r[1], t.v, r[2], <<"o", 1>>)
    [] e[1] = "mcall" -> LET t == Eval(s, e[2], f)
                             m == IF t.x \/ t.v[1] # "o" THEN UNDEF ELSE t.ob[t.v[2]][e[3]]
                             r == EvalAll(t, e[4], f, <<>>)
                         IN Call(r[1], m, r[2], t.v)
    [] e[1] = "via" -> LET t == Eval(s, e[3], f) r == EvalAll(t, <<e[4]>> \o e[5], f, <<>>)      \* call / apply
                       IN IF r[1].x THEN r[1] ELSE Call(r[1], t.v, Tail(r[2]), r[2][1])
    [] e[1] = "bind" -> LET t == Eval(s, e[2], f) r == EvalAll(t, <<e[3]>> \o e[4], f, <<>>)
                        IN IF r[1].x THEN r[1] ELSE IF t.v[1] # "f" THEN Exc(r[1])
                           ELSE NewFun(r[1], [NoFun EXCEPT !.kind = "bound", !.target = t.v[2], !.bthis = r[2][1], !.bargs = Tail(r[2])])
    [] e[1] = "new" -> LET t == Eval(s, e[2], f) r == EvalAll(t, e[3], f, <<>>)
                           o == Len(r[1].ob) + 1
                           u == Call([r[1] EXCEPT !.ob = Append(@, [zp |-> UNDEF, zm |-> UNDEF])], t.v, r[2], <<"o", o>>)
                       IN IF r[1].x THEN r[1] ELSE IF u.x THEN u ELSE Val(u, <<"o", o>>)
    [] e[1] = "try" -> LET r == EvalAll(s, <<e[2], e[3]>>, f, <<>>)          \* call the first, on an error yield the second
                           u == Call(r[1], r[2][1], <<>>, <<"o", 1>>)
                       IN IF r[1].x THEN r[1] ELSE IF u.x THEN [u EXCEPT !.x = FALSE, !.v = r[2][2]] ELSE u
    [] e[1] = "throw" -> Exc(s)
    [] e[1] = "arg" -> Val(s, LET a == s.fr[f].argv IN IF e[2] <= Len(a) THEN a[e[2]] ELSE UNDEF)
    [] e[1] = "setarg" -> LET t == Eval(s, e[3], f) IN IF t.x THEN t ELSE [t EXCEPT !.fr[f].argv[e[2]] = t.v]
    [] e[1] = "argc" -> Val(s, <<"n", Len(s.fr[f].argv)>>)
\* the initial functions and objects:  CA() -> 1, CB() -> this.zp, UA(n) -> n + 1, MA(n) -> counter, HA(c) -> c(), KA(n) constructor
Fn(params, locals, body) == [NoFun EXCEPT !.params = params, !.defs = [i \in 1..Len(params) |-> <<>>], !.locals = locals, !.body = body, !.frame = 1]
Num(i) == <<"num", i>>
Var(x) == <<"var", x>>
Counter == <<"fun", "e", <<>>, <<>>, <<>>, <<<<"set", "na", <<"add", Var("na"), Num(1)>>>>>>>>
Init0 == [fr |-> <<[vars |-> [na |-> <<"n", 0>>, nb |-> <<"n", 1>>, nc |-> <<"n", 2>>, ca |-> <<"f", 1>>, cb |-> <<"f", 2>>, ua |-> <<"f", 3>>,
                              ub |-> <<"f", 3>>, ma |-> <<"f", 4>>, ha |-> <<"f", 5>>, ka |-> <<"f", 6>>, oa |-> <<"o", 2>>, ob |-> <<"o", 3>>],
                     up |-> 0, this |-> <<"o", 1>>, np |-> <<>>, argv |-> <<>>]>>,
          fn |-> <<Fn(<<>>, <<>>, <<Num(1)>>), Fn(<<>>, <<>>, <<<<"getp", <<"this">>, "zp">>>>),
                   Fn(<<"na">>, <<>>, <<<<"add", Var("na"), Num(1)>>>>), Fn(<<"na">>, <<>>, <<Counter>>),
                   Fn(<<"ca">>, <<>>, <<<<"call", Var("ca"), <<>>>>>>),
                   Fn(<<"na">>, <<>>, <<<<"setp", <<"this">>, "zp", Var("na")>>, <<"setp", <<"this">>, "zm", Counter>>, Num(0)>>)>>,
          ob |-> <<[zp |-> <<"n", 7>>, zm |-> <<"f", 2>>], [zp |-> <<"n", 3>>, zm |-> <<"f", 2>>], [zp |-> <<"n", 4>>, zm |-> <<"f", 1>>]>>,
          fuel |-> 0, log |-> <<>>, x |-> FALSE, v |-> UNDEF]
Tok(s, x) == Token(s.fr[1].vars[x])
Do(s, e) ==
  LET t == Eval([s EXCEPT !.fuel = Fuel, !.log = <<>>, !.x = FALSE, !.v = UNDEF], e.a[1], 1)
  IN {[s |-> [t EXCEPT !.fuel = 0, !.log = <<>>, !.x = FALSE, !.v = UNDEF],
       r |-> <<IF t.x THEN <<"thrown">> ELSE <<"v", Token(t.v)>>, t.log, <<Tok(t, "na"), Tok(t, "nb"), Tok(t, "nc"), Token(t.ob[1].zp)>>>>]}
\* frames refer to earlier frames only, and every value refers to something that exists
Ok(s, v) == (v[1] = "f" => v[2] \in 1..Len(s.fn)) /\ (v[1] = "o" => v[2] \in 1..Len(s.ob))
Inv(s) == /\ \A i \in 1..Len(s.fr) : s.fr[i].up < i /\ \A x \in DOMAIN s.fr[i].vars : Ok(s, s.fr[i].vars[x])
          /\ \A i \in 1..Len(s.fn) : s.fn[i].frame \in 0..Len(s.fr)
\* an event changes variables only of frames that existed before, through closures that see them, and adds new frames: existing ones keep their parent, names and this
StepInv(s, e, t) == \A i \in 1..Len(s.fr) : /\ t.fr[i].up = s.fr[i].up
                                            /\ t.fr[i].this = s.fr[i].this
                                            /\ DOMAIN t.fr[i].vars = DOMAIN s.fr[i].vars
                                            /\ t.fr[i].np = s.fr[i].np
=============================================================================
