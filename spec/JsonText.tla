------------------------------- MODULE JsonText -------------------------------
(* Property L09: JSON.parse, JSON.check and JSON.stringify.  The grammar of JSON is written out here as a parser over
   character sequences; what parse, check and stringify do is judged by it.

   A value: <<"z">>, <<"b", TRUE>>, <<"n", canonical text>>, <<"s", characters>>, <<"a", values>>,
   <<"o", set of <<key characters, value>>>>.
   tab, an argument of the operations, maps the text of each number to its canonical text, and each escape to its
   character (conversion between decimal and binary and code points are not specified here).
   slot: three variables of the script, each {} (undefined) or {value}. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Slots == 1..3
Init0 == [slot |-> [i \in Slots |-> {}]]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
Ws == {" ", "\t", "\n", "\r"}
Hex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Dig == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Bad == <<FALSE, <<"z">>, 0>>
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE ""
RECURSIVE Skip(_, _)
Skip(t, i) == IF At(t, i) \in Ws THEN Skip(t, i + 1) ELSE i
RECURSIVE Digits(_, _)        \* index after the digits at i
Digits(t, i) == IF At(t, i) \in Dig THEN Digits(t, i + 1) ELSE i
NumEnd(t, i) ==               \* index after the number at i, or 0
  LET a == IF At(t, i) = "-" THEN i + 1 ELSE i
      b == IF At(t, a) = "0" THEN a + 1 ELSE Digits(t, a)
      c == IF At(t, b) = "." THEN Digits(t, b + 1) ELSE b
      d == IF At(t, c) \in {"e", "E"} THEN (IF At(t, c + 1) \in {"+", "-"} THEN c + 2 ELSE c + 1) ELSE c
      f == IF d = c THEN c ELSE Digits(t, d)
  IN IF b = a \/ (c # b /\ c = b + 1) \/ (d # c /\ f = d) THEN 0 ELSE f
Word(t, i, w) == \A j \in 1..Len(w) : At(t, i + j - 1) = w[j]

RECURSIVE Str(_, _, _, _)     \* after the opening quote
Str(t, i, acc, tab) ==
  LET c == At(t, i)  e == At(t, i + 1) IN
  IF c = "" THEN Bad
  ELSE IF c = "\"" THEN <<TRUE, acc, i + 1>>
  ELSE IF c # "\\" THEN Str(t, i + 1, Append(acc, c), tab)
  ELSE IF e \in {"\"", "\\", "/", "b", "f", "n", "r", "t"} THEN Str(t, i + 2, Append(acc, tab["\\" \o e]), tab)
  ELSE IF e = "u" /\ i + 5 <= Len(t) /\ (\A j \in 2..5 : At(t, i + j) \in Hex) THEN
         LET h == Cat(SubSeq(t, i + 2, i + 5))
             h2 == IF At(t, i + 6) = "\\" /\ At(t, i + 7) = "u" /\ i + 11 <= Len(t) THEN h \o Cat(SubSeq(t, i + 8, i + 11)) ELSE "" IN
         IF h2 \in DOMAIN tab THEN Str(t, i + 12, Append(acc, tab[h2]), tab)
         ELSE IF h \in DOMAIN tab THEN Str(t, i + 6, Append(acc, tab[h]), tab) ELSE Bad
  ELSE Bad

RECURSIVE Val(_, _, _), Elems(_, _, _, _), Members(_, _, _, _)
Val(t, j, tab) ==
  LET i == Skip(t, j)  c == At(t, i) IN
  CASE c = "[" -> IF At(t, Skip(t, i + 1)) = "]" THEN <<TRUE, <<"a", <<>>>>, Skip(t, i + 1) + 1>> ELSE Elems(t, i + 1, <<>>, tab)
    [] c = "{" -> IF At(t, Skip(t, i + 1)) = "}" THEN <<TRUE, <<"o", {}>>, Skip(t, i + 1) + 1>> ELSE Members(t, i + 1, {}, tab)
    [] c = "\"" -> LET x == Str(t, i + 1, <<>>, tab) IN IF x[1] THEN <<TRUE, <<"s", x[2]>>, x[3]>> ELSE Bad
    [] c = "t" -> IF Word(t, i, <<"t", "r", "u", "e">>) THEN <<TRUE, <<"b", TRUE>>, i + 4>> ELSE Bad
    [] c = "f" -> IF Word(t, i, <<"f", "a", "l", "s", "e">>) THEN <<TRUE, <<"b", FALSE>>, i + 5>> ELSE Bad
    [] c = "n" -> IF Word(t, i, <<"n", "u", "l", "l">>) THEN <<TRUE, <<"z">>, i + 4>> ELSE Bad
    [] c \in Dig \cup {"-"} -> LET f == NumEnd(t, i) IN IF f = 0 THEN Bad ELSE <<TRUE, <<"n", tab[Cat(SubSeq(t, i, f - 1))]>>, f>>
    [] OTHER -> Bad
Elems(t, j, acc, tab) ==
  LET x == Val(t, j, tab)  k == Skip(t, x[3]) IN
  IF ~x[1] THEN Bad
  ELSE IF At(t, k) = "," THEN Elems(t, k + 1, Append(acc, x[2]), tab)
  ELSE IF At(t, k) = "]" THEN <<TRUE, <<"a", Append(acc, x[2])>>, k + 1>> ELSE Bad
Put(acc, key, v) == {p \in acc : p[1] # key} \cup {<<key, v>>}
Members(t, j, acc, tab) ==
  LET i == Skip(t, j) IN
  IF At(t, i) # "\"" THEN Bad
  ELSE LET n == Str(t, i + 1, <<>>, tab)  k == Skip(t, n[3]) IN
       IF ~n[1] \/ At(t, k) # ":" THEN Bad
       ELSE LET x == Val(t, k + 1, tab)  m == Skip(t, x[3]) IN
            IF ~x[1] THEN Bad
            ELSE IF At(t, m) = "," THEN Members(t, m + 1, Put(acc, n[2], x[2]), tab)
            ELSE IF At(t, m) = "}" THEN <<TRUE, <<"o", Put(acc, n[2], x[2])>>, m + 1>> ELSE Bad
\* {} if the text is not JSON, else {its value}
Parse(t, tab) == LET x == Val(t, 1, tab) IN IF x[1] /\ Skip(t, x[3]) = Len(t) + 1 THEN {x[2]} ELSE {}

\* a value as the driver reports it (objects as sequences of pairs)
RECURSIVE FromDriver(_)
FromDriver(v) ==
  CASE v[1] = "a" -> <<"a", [i \in DOMAIN v[2] |-> FromDriver(v[2][i])]>>
    [] v[1] = "o" -> <<"o", {<<v[2][i][1], FromDriver(v[2][i][2])>> : i \in DOMAIN v[2]}>>
    [] OTHER -> v

Do(s, e) ==
  LET a == e.a  op == e.op
      one(t, r) == {[s |-> t, r |-> r]}
      when(c, t) == IF c THEN one(t, "ok") ELSE {}
      Same(obs, v) == obs # <<"E">> /\ FromDriver(obs) = v
  IN
  CASE op = "make" -> one([s EXCEPT !.slot[a[1]] = {FromDriver(a[2])}], "ok")
    [] op = "parse" ->     \* slot, text, tab, strict, what parse gave (<<"E">>: an error)
         LET x == Parse(a[2], a[3]) IN
         IF a[4] THEN (IF x = {} THEN when(a[5] = <<"E">>, s)
                       ELSE when(\A v \in x : Same(a[5], v), [s EXCEPT !.slot[a[1]] = x]))
         ELSE IF x # {} THEN when(\A v \in x : Same(a[5], v), [s EXCEPT !.slot[a[1]] = x])
         ELSE IF a[5] = <<"E">> THEN one(s, "ok") ELSE one([s EXCEPT !.slot[a[1]] = {<<"z">>}], "ok")   \* the driver then assigns null
    [] op = "check" ->     \* text, tab, strict, what check gave
         IF a[3] THEN when(a[4] = (Parse(a[1], a[2]) # {}), s) ELSE when(Parse(a[1], a[2]) # {} => a[4], s)
    [] op = "show" ->      \* slot, what it holds ("u": nothing)
         IF s.slot[a[1]] = {} THEN when(a[2] = <<"u">>, s) ELSE when(\A v \in s.slot[a[1]] : Same(a[2], v), s)
    [] op = "str" ->       \* slot, the text of stringify, tab
         IF s.slot[a[1]] = {} THEN one(s, "ok")
         ELSE when(Parse(a[2], a[3]) = s.slot[a[1]], s)
    [] op = "rt" ->        \* slot, what it became after a way there and back
         IF s.slot[a[1]] = {} THEN one(s, "ok")
         ELSE when(\A v \in s.slot[a[1]] : Same(a[2], v), s)
    [] op = "push" ->      \* slot, value: append to an array
         LET x == s.slot[a[1]] IN
         IF x = {} \/ (\E v \in x : v[1] # "a") THEN one(s, "ok")
         ELSE one([s EXCEPT !.slot[a[1]] = {<<"a", Append((CHOOSE v \in x : TRUE)[2], FromDriver(a[2]))>>}], "ok")
    [] op = "set" ->       \* slot, key, value: a property of an object
         LET x == s.slot[a[1]] IN
         IF x = {} \/ (\E v \in x : v[1] # "o") THEN one(s, "ok")
         ELSE one([s EXCEPT !.slot[a[1]] = {<<"o", Put((CHOOSE v \in x : TRUE)[2], a[2], FromDriver(a[3]))>>}], "ok")
    [] op = "hits" -> one(s, "0")      \* nothing a text contains was run

Inv(s) == \A i \in Slots : Cardinality(s.slot[i]) <= 1
StepInv(s, e, t) == e.op \in {"check", "show", "str", "rt", "hits"} => t = s
=============================================================================
