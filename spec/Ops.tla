-------------------------------- MODULE Ops --------------------------------
(* Expressions with side effects.  Every event evaluates one expression tree in a fresh environment: variables
   a b c, properties o.p o.q (o.g an accessor of o.p that logs), elements r[0] r[1] r[2] (in this order in env), and a log.
   Eval threads a state [env, log, x, v] through the tree: x is "" normally, "exc" after an error, "any" once a value
   left the range the specification defines (then any outcome that is an outcome is accepted).
   Values: <<"n", 3>>  <<"s", "text">>  <<"b", TRUE>>  <<"z">> (null)  <<"u">> (undefined).                    *)
EXTENDS Integers, Sequences, TLC, Bitwise
Init0 == [n |-> 0]
Inv(s) == s.n >= 0
Lim == 1000000
UNDEF == <<"u">>
Num(i) == <<"n", i>>
Str(x) == <<"s", x>>
Boo(b) == <<"b", b>>
\* --- values
Chr == "!-0123456789abcdefghijklmnopqrstuvwxyz"
Ch(t, i) == SubSeq(t, i, i)
Ord(c) == CHOOSE i \in 1..Len(Chr) : Ch(Chr, i) = c
Digits == {Ch(Chr, i) : i \in 3..12}
RECURSIVE DigVal(_)
DigVal(t) == IF t = "" THEN 0 ELSE DigVal(SubSeq(t, 1, Len(t) - 1)) * 10 + Ord(Ch(t, Len(t))) - 3
AllDig(t) == t # "" /\ \A i \in 1..Len(t) : Ch(t, i) \in Digits
\* NAN: not a number; ODD: outside what is specified
NAN == <<"nan">>
ODD == <<"odd">>
NumOfStr(t) ==
  IF t = "" THEN Num(0)
  ELSE LET neg == Ch(t, 1) = "-"
           d == IF neg THEN SubSeq(t, 2, Len(t)) ELSE t
       IN IF AllDig(d) THEN (IF Len(d) > 6 \/ (Len(d) > 1 /\ Ch(d, 1) = "0") THEN ODD ELSE Num(IF neg THEN 0 - DigVal(d) ELSE DigVal(d)))
          ELSE IF d # "" /\ Ch(d, 1) \in Digits \cup {"i", "n"} THEN (IF Ch(d, 1) = "0" /\ Len(d) > 1 THEN ODD ELSE IF Ch(d, 1) \in {"i"} THEN ODD ELSE NAN) ELSE NAN
ToNum(v) == CASE v[1] = "n" -> v
              [] v[1] = "s" -> NumOfStr(v[2])
              [] v[1] = "b" -> IF v[2] THEN Num(1) ELSE Num(0)
              [] v[1] = "z" -> Num(0)
              [] OTHER -> NAN
Show(v) == CASE v[1] = "n" -> ToString(v[2])
             [] v[1] = "s" -> v[2]
             [] v[1] = "b" -> IF v[2] THEN "true" ELSE "false"
             [] v[1] = "z" -> "null"
             [] OTHER -> "undefined"
Token(v) == CASE v[1] = "n" -> "n" \o ToString(v[2])
              [] v[1] = "s" -> "s" \o v[2]
              [] v[1] = "b" -> IF v[2] THEN "bT" ELSE "bF"
              [] v[1] = "z" -> "z"
              [] OTHER -> "u"
Truth(v) == CASE v[1] = "n" -> v[2] # 0 [] v[1] = "s" -> v[2] # "" [] v[1] = "b" -> v[2] [] OTHER -> FALSE
RECURSIVE StrLess(_, _)
StrLess(p, q) == IF q = "" THEN FALSE
                 ELSE IF p = "" THEN TRUE
                 ELSE IF Ch(p, 1) = Ch(q, 1) THEN StrLess(SubSeq(p, 2, Len(p)), SubSeq(q, 2, Len(q)))
                 ELSE Ord(Ch(p, 1)) < Ord(Ch(q, 1))
Same(v, w) == /\ v[1] = w[1]
              /\ IF Len(v) = 1 THEN TRUE ELSE v[2] = w[2]
Loose(v, w) == IF v[1] = w[1] THEN Boo(Same(v, w))
               ELSE IF "u" \in {v[1], w[1]} THEN Boo("z" \in {v[1], w[1]})
               ELSE LET x == ToNum(v) y == ToNum(w)
                    IN IF ODD \in {x, y} THEN ODD ELSE IF NAN \in {x, y} THEN Boo(FALSE) ELSE Boo(x[2] = y[2])
Abs(i) == IF i < 0 THEN 0 - i ELSE i
Quot(i, j) == LET q == Abs(i) \div Abs(j) IN IF (i < 0) = (j < 0) THEN q ELSE 0 - q
Two22 == 4194304
Wrap(i) == IF i < 0 THEN i + Two22 ELSE i
Unwrap(i) == IF i >= Two22 \div 2 THEN i - Two22 ELSE i
Pow2(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE IF k = 3 THEN 8 ELSE IF k = 4 THEN 16 ELSE IF k = 5 THEN 32 ELSE IF k = 6 THEN 64 ELSE 128
InR(i) == i <= Lim /\ i >= 0 - Lim
\* binary operators on two values; results also NAN = an error
Arith(k, x, y) ==
  LET i == x[2] j == y[2] IN
  CASE k = "+" -> Num(i + j)
    [] k = "-" -> Num(i - j)
    [] k = "*" -> IF Abs(i) > 2000 \/ Abs(j) > 1000 THEN ODD ELSE Num(i * j)
    [] k = "/" -> IF j = 0 THEN ODD ELSE IF i = 0 /\ j < 0 THEN ODD ELSE IF Abs(i) % Abs(j) # 0 THEN ODD ELSE Num(Quot(i, j))
    [] k = "%" -> IF j = 0 THEN ODD ELSE IF i < 0 /\ (Abs(i) % Abs(j)) = 0 THEN ODD ELSE Num(IF i < 0 THEN 0 - (Abs(i) % Abs(j)) ELSE i % Abs(j))
    [] k = "&" -> Num(Unwrap(Wrap(i) & Wrap(j)))
    [] k = "|" -> Num(Unwrap(Wrap(i) | Wrap(j)))
    [] k = "^" -> Num(Unwrap(Wrap(i) ^^ Wrap(j)))
    [] k = "<<" -> IF j < 0 \/ j > 7 \/ Abs(i) > 7000 THEN ODD ELSE Num(i * Pow2(j))
    [] k = ">>" -> IF j < 0 \/ j > 7 THEN ODD ELSE Num(i \div Pow2(j))
    [] k = ">>>" -> IF j < 0 \/ j > 7 \/ i < 0 THEN ODD ELSE Num(i \div Pow2(j))
    [] OTHER -> ODD
Bin(k, v, w) ==
  CASE k \in {"==", "!="} -> LET l == Loose(v, w) IN IF l = ODD THEN ODD ELSE Boo(l[2] = (k = "=="))
    [] k \in {"===", "!=="} -> IF v = UNDEF /\ w # UNDEF THEN NAN ELSE Boo(Same(v, w) = (k = "==="))
    [] k \in {"<", ">", "<=", ">="} ->
         IF UNDEF \in {v, w} THEN NAN
         ELSE IF "s" \in {v[1], w[1]}
         THEN LET p == Show(v) q == Show(w)
              IN Boo(CASE k = "<" -> StrLess(p, q) [] k = ">" -> StrLess(q, p) [] k = "<=" -> ~StrLess(q, p) [] OTHER -> ~StrLess(p, q))
         ELSE LET i == ToNum(v)[2] j == ToNum(w)[2]
              IN Boo(CASE k = "<" -> i < j [] k = ">" -> i > j [] k = "<=" -> i <= j [] OTHER -> i >= j)
    [] k = "+" /\ UNDEF \in {v, w} -> NAN
    [] k = "+" /\ "s" \in {v[1], w[1]} -> IF Len(Show(v)) + Len(Show(w)) > 60 THEN ODD ELSE Str(Show(v) \o Show(w))
    [] k \in {"<<", ">>", ">>>"} /\ (v[1] = "s" \/ w[1] = "s" \/ UNDEF \in {v, w}) -> ODD
    [] OTHER ->
         LET x == ToNum(v) y == ToNum(w)
         IN IF NAN \in {x, y} /\ ODD \notin {x, y} THEN NAN ELSE IF ODD \in {x, y} THEN ODD
            ELSE LET n == Arith(k, x, y) IN IF n = ODD THEN ODD ELSE IF InR(n[2]) THEN n ELSE ODD
Una(k, v) ==
  CASE k = "!" -> Boo(~Truth(v))
    [] k = "typeof" -> Str(CASE v[1] = "n" -> "number" [] v[1] = "s" -> "string" [] v[1] = "b" -> "boolean" [] v[1] = "z" -> "null" [] OTHER -> "undefined")
    [] k = "void" -> UNDEF
    [] k = "~" /\ v[1] # "n" -> ODD
    [] OTHER -> LET x == ToNum(v)
                IN IF x \in {NAN, ODD} THEN x
                   ELSE IF k = "-" THEN (IF x[2] = 0 THEN ODD ELSE Num(0 - x[2])) ELSE IF k = "+" THEN x ELSE Num(0 - x[2] - 1)
\* --- places: 1..3 variables a b c, 4..5 o.p o.q, 6..8 r[0..2], 9 = o.g (accessor of o.p)
Put(s, v) == IF s.x # "" THEN s
             ELSE IF v = NAN THEN [s EXCEPT !.x = "exc"] ELSE IF v = ODD THEN [s EXCEPT !.x = "any"] ELSE [s EXCEPT !.v = v]
Log(s, k) == [s EXCEPT !.log = Append(@, k)]
Get(s, l) == IF s.x # "" THEN s ELSE IF l = 9 THEN [Log(s, "g") EXCEPT !.v = s.env[4]] ELSE [s EXCEPT !.v = s.env[l]]
\* undefined is not stored: whether a place may be assigned from an undefined one depends on the options
Set(s, l, v) == IF s.x # "" THEN s ELSE IF v = UNDEF THEN [s EXCEPT !.x = "any"] ELSE IF l = 9 THEN [Log(s, "s") EXCEPT !.env[4] = v, !.v = v] ELSE [s EXCEPT !.env[l] = v, !.v = v]
RECURSIVE Eval(_, _), Place(_, _), EvalAll(_, _, _)
\* the place an lvalue denotes: <<state, place>> (place 0 = none)
Place(s, e) ==
  CASE e[1] = "var" -> <<s, e[2]>>
    [] e[1] = "prop" -> <<s, e[2]>>
    [] e[1] = "acc" -> <<s, 9>>
    [] e[1] = "cprop" -> LET t == Eval(s, e[2])
                         IN IF t.x # "" THEN <<t, 0>>
                            ELSE IF t.v = Str("p") THEN <<t, 4>> ELSE IF t.v = Str("q") THEN <<t, 5>> ELSE IF t.v = Str("g") THEN <<t, 9>> ELSE <<[t EXCEPT !.x = "any"], 0>>
    [] e[1] = "idx" -> LET t == Eval(s, e[2])
                       IN IF t.x # "" THEN <<t, 0>>
                          ELSE IF t.v \in {Num(0), Num(1), Num(2)} THEN <<t, 6 + t.v[2]>> ELSE <<[t EXCEPT !.x = "any"], 0>>
\* list of values, left to right
EvalAll(s, es, acc) == IF s.x # "" \/ es = <<>> THEN <<s, acc>>
                       ELSE LET t == Eval(s, Head(es)) IN EvalAll(t, Tail(es), Append(acc, t.v))
Eval(s, e) ==
  IF s.x # "" THEN s ELSE
  CASE e[1] = "lit" -> [s EXCEPT !.v = e[2]]
    [] e[1] \in {"var", "prop", "acc", "cprop", "idx"} -> LET p == Place(s, e) IN Get(p[1], p[2])
    [] e[1] = "t" -> LET t == Eval(s, e[3]) IN IF t.x # "" THEN t ELSE Log(t, "n" \o ToString(e[2]))
    [] e[1] = "setv" -> LET t == Eval(s, e[2]) IN IF t.x # "" THEN t ELSE IF t.v = UNDEF THEN [t EXCEPT !.x = "any"] ELSE [t EXCEPT !.env[1] = t.v, !.env[4] = t.v, !.env[6] = t.v]
    [] e[1] = "throw" -> [s EXCEPT !.x = "exc"]
    [] e[1] = "pick" -> LET r == EvalAll(s, e[3], <<>>)      \* array literal, object literal or call: the i-th of the values
                        IN IF r[1].x # "" THEN r[1] ELSE [r[1] EXCEPT !.v = r[2][e[2]]]
    [] e[1] = "un" -> LET t == Eval(s, e[3]) IN IF t.x # "" THEN t ELSE Put(t, Una(e[2], t.v))
    [] e[1] = "and" -> LET t == Eval(s, e[2]) IN IF t.x # "" \/ ~Truth(t.v) THEN t ELSE Eval(t, e[3])
    [] e[1] = "or" -> LET t == Eval(s, e[2]) IN IF t.x # "" \/ Truth(t.v) THEN t ELSE Eval(t, e[3])
    [] e[1] = "if" -> LET t == Eval(s, e[2]) IN IF t.x # "" THEN t ELSE IF Truth(t.v) THEN Eval(t, e[3]) ELSE Eval(t, e[4])
    [] e[1] = "comma" -> Eval(Eval(s, e[2]), e[3])
    [] e[1] = "bin" -> LET t == Eval(s, e[3])
                           u == Eval(t, e[4])
                       IN IF t.x # "" THEN t ELSE IF u.x # "" THEN u ELSE Put(u, Bin(e[2], t.v, u.v))
    [] e[1] = "asg" -> LET p == Place(s, e[2])
                           t == Eval(p[1], e[3])
                       IN IF p[1].x # "" THEN p[1] ELSE IF t.x # "" THEN t ELSE Set(t, p[2], t.v)
    [] e[1] = "op" -> LET p == Place(s, e[3])            \* the old value is read before the right side is evaluated
                          o == Get(p[1], p[2])
                          t == Eval(o, e[4])
                          u == Put(t, Bin(e[2], o.v, t.v))
                      IN IF p[1].x # "" THEN p[1] ELSE IF t.x # "" THEN t ELSE IF u.x # "" THEN u ELSE Set(u, p[2], u.v)
    [] e[1] = "inc" -> LET p == Place(s, e[4])            \* <<"inc", +1/-1, prefix?, place>>
                           o == Get(p[1], p[2])
                           n == ToNum(o.v)
                       IN IF p[1].x # "" THEN p[1]
                          ELSE IF n \in {NAN, ODD} THEN [o EXCEPT !.x = "any"]
                          ELSE LET t == Set(o, p[2], Num(n[2] + e[2])) IN IF e[3] THEN t ELSE [t EXCEPT !.v = n]
Start(env) == [env |-> env, log |-> <<>>, x |-> "", v |-> UNDEF]
Out(f) == <<IF f.x = "exc" THEN <<"thrown">> ELSE <<"v", Token(f.v)>>, f.log, [i \in 1..8 |-> Token(f.env[i])]>>
\* one event: <<environment, tree>>
Do(s, e) ==
  LET f == Eval(Start(e.a[1]), e.a[2])
      s2 == [n |-> s.n + 1]
  IN IF f.x = "any"
     THEN IF "r" \in DOMAIN e /\ Len(e.r) = 3 THEN {[s |-> s2, r |-> e.r]} ELSE {[s |-> s2, r |-> <<"any">>]}
     ELSE {[s |-> s2, r |-> Out(f)]}
StepInv(s, e, t) == TRUE
=============================================================================
