------------------------------- MODULE Qry -------------------------------
(* Property D02: what query, eval, onecolumn, exists, func and collate of the Sqlite module return, for every content of
   a table t(k integer primary key, a, b bool), every way of passing parameters and every result form.

   A value is <<type, ...>>: <<"n", text, whole>> a number, <<"s", characters>>, <<"z">> null, <<"b", TRUE/FALSE>>.
   A stored value is the same with its storage class:
     <<"integer" / "real", text>>, <<"text", characters>>, <<"null">>.
   tab maps 1..MaxK to {} (no such row) or {<<a, b>>}; fi: are whole numbers bound as integers? *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

MaxK == 6
Init0 == [tab |-> [k \in 1..MaxK |-> {}], fi |-> FALSE, fn |-> 0]

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)

The(x) == CHOOSE y \in x : TRUE
Keys(s) == {k \in 1..MaxK : s.tab[k] # {}}
RECURSIVE Sorted(_)
Sorted(ks) == IF ks = {} THEN <<>> ELSE LET m == CHOOSE x \in ks : \A y \in ks : x <= y IN <<m>> \o Sorted(ks \ {m})
From(s, f) == Sorted({k \in Keys(s) : k >= f})
Row(s, k) == The(s.tab[k])
Take(q, n) == IF n = 0 \/ Len(q) <= n THEN q ELSE SubSeq(q, 1, n)

\* how a value passed in the given form is stored in the untyped column a
Store(s, form, v) ==
  CASE v[1] = "z" -> <<"null">>
    [] v[1] = "s" -> <<"text", v[2]>>
    [] v[1] = "b" -> <<"integer", IF v[2] THEN "1" ELSE "0">>
    [] v[1] = "n" -> <<IF v[3] /\ (form = 0 \/ form = 6 \/ s.fi) THEN "integer" ELSE "real", v[2]>>
\* column b has numeric affinity; only booleans, null and whole numbers are stored there
StoreB(s, form, v) == IF v[1] = "n" THEN <<"integer", v[2]>> ELSE Store(s, form, v)

\* the value a script gets for column a and for the boolean column b
Val(x) == CASE x[1] = "null" -> "z" [] x[1] = "text" -> "s" \o Cat(x[2]) [] OTHER -> "n" \o x[2]
ValB(x) == IF x[1] = "integer" /\ x[2] = "0" THEN "bF" ELSE IF x[1] = "integer" /\ x[2] = "1" THEN "bT" ELSE Val(x)
\* plain text
Txt(x, nul) == CASE x[1] = "null" -> nul [] x[1] = "text" -> Cat(x[2]) [] OTHER -> x[2]
TxtB(x, nul) == IF x[1] = "integer" /\ x[2] = "0" THEN "false" ELSE IF x[1] = "integer" /\ x[2] = "1" THEN "true" ELSE Txt(x, nul)
\* JSON
JCh(c) == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] OTHER -> c
JStr(q) == "\"" \o Cat([i \in DOMAIN q |-> JCh(q[i])]) \o "\""
Json1(x, t) == IF x[1] = "null" THEN "null" ELSE IF x[1] = "text" THEN JStr(x[2]) ELSE t
\* CSV
Plain == {"a", "b", "z", "1", "<", "&", "|", "\\", ",", ";", "t", "r", "u", "e", "n", "l", "s", "i", "m", "p", "P", "{", "}", "(", ")", "$", "?", ">"}
HasSub(q, sub) == \E i \in 0..(Len(q) - Len(sub)) : \A j \in 1..Len(sub) : q[i + j] = sub[j]
CsvStr(q, sep) ==
  IF q = <<>> \/ (\E i \in DOMAIN q : q[i] \notin Plain) \/ HasSub(q, sep)
  THEN "\"" \o Cat([i \in DOMAIN q |-> IF q[i] = "\"" THEN "\"\"" ELSE q[i]]) \o "\"" ELSE Cat(q)
Csv1(x, t, nul, sep) == IF x[1] = "text" THEN CsvStr(x[2], sep) ELSE IF x[1] = "null" THEN CsvStr(nul, sep) ELSE t
\* HTML
HCh(c) == CASE c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = "&" -> "&amp;" [] c = "\"" -> "&quot;" [] c = "'" -> "&#39;" [] OTHER -> c
HStr(q) == Cat([i \in DOMAIN q |-> HCh(q[i])])
Html1(x, t, nul) == IF x[1] = "text" THEN HStr(x[2]) ELSE IF x[1] = "null" THEN HStr(nul) ELSE t
\* SQL
Sql1(x, t) == IF x[1] = "null" THEN "NULL"
              ELSE IF x[1] = "text" THEN "'" \o Cat([i \in DOMAIN x[2] |-> IF x[2][i] = "'" THEN "''" ELSE x[2][i]]) \o "'" ELSE t
\* column mode: values are padded to 10 places
Pad(t, n) == t \o Cat([i \in 1..(10 - n) |-> " "])
Col1(x, t, n, nul) ==      \* n: length of a number's text
  CASE x[1] = "text" -> Pad(Cat(SubSeq(x[2], 1, IF Len(x[2]) > 10 THEN 10 ELSE Len(x[2]))), IF Len(x[2]) > 10 THEN 10 ELSE Len(x[2]))
    [] x[1] = "null" -> Pad(Cat(nul), Len(nul))
    [] OTHER -> Pad(t, n)

V(r) == <<r[1], r[2]>>
Cols(s, k, nul) == <<ToString(k), Txt(Row(s, k)[1], nul), TxtB(Row(s, k)[2], nul)>>
\* the text of a query over the rows ks.  o: [hdr, lim, sep (characters), nul (characters), w (lengths of number texts)]
Query(s, mode, ks, o) ==
  LET sep == Cat(o.sep)  nul == Cat(o.nul)
      A(k) == Row(s, k)[1]  B(k) == Row(s, k)[2]
      J(k) == <<ToString(k), Json1(A(k), Txt(A(k), "")), Json1(B(k), TxtB(B(k), ""))>>
      each(f(_)) == [i \in DOMAIN ks |-> f(ks[i])]
      rowv(k) == ToString(k) \o ":" \o Val(A(k)) \o ":" \o ValB(B(k))
      withh(h, lines, nl) == IF ks = <<>> THEN "" ELSE Join((IF o.hdr THEN <<h>> ELSE <<>>) \o lines, nl)
  IN CASE mode = "rows" -> Join(each(rowv), ";")
       [] mode = "arrays" -> withh("H", each(rowv), ";")
       [] mode = "array1d" -> withh("H", each(rowv), ";")
       [] mode = "json" ->
            IF o.hdr THEN LET f(k) == "[" \o Join(J(k), ", ") \o "]"
                          IN "[ " \o Join((IF ks = <<>> THEN <<>> ELSE <<"[\"k\", \"a\", \"b\"]">>) \o each(f), ", ") \o " ]"
            ELSE LET f(k) == "{\"k\":" \o J(k)[1] \o ", \"a\":" \o J(k)[2] \o ", \"b\":" \o J(k)[3] \o "}"
                 IN "[ " \o Join(each(f), ", ") \o " ]"
       [] mode = "json2" -> LET f(k) == "[" \o Join(J(k), ", ") \o " ]" IN
                            IF ks = <<>> THEN ""
                            ELSE "{ \"names\": [ \"k\", \"a\", \"b\" ], \"values\": [ " \o Join(each(f), ", ") \o " ] } "
       [] mode = "list" -> LET f(k) == Join(Cols(s, k, nul), sep) IN withh("k" \o sep \o "a" \o sep \o "b", each(f), "\n")
       [] mode = "tabs" -> LET f(k) == Join(Cols(s, k, nul), sep) IN withh("k" \o sep \o "a" \o sep \o "b", each(f), "\n")
       [] mode = "csv" -> LET f(k) == Join(<<ToString(k), Csv1(A(k), Txt(A(k), nul), o.nul, o.sep), Csv1(B(k), TxtB(B(k), nul), o.nul, o.sep)>>, sep)
                          IN withh("k" \o sep \o "a" \o sep \o "b", each(f), "\n")
       [] mode = "html" -> LET f(k) == "<TR><TD>" \o ToString(k) \o "</TD><TD>" \o Html1(A(k), Txt(A(k), nul), o.nul) \o "</TD><TD>"
                                       \o Html1(B(k), TxtB(B(k), nul), o.nul) \o "</TD></TR>"
                           IN withh("<TR><TH>k</TH><TH>a</TH><TH>b</TH></TR>", each(f), "\n")
       [] mode = "insert" -> LET f(k) == "INSERT INTO \"tt\" VALUES(" \o ToString(k) \o "," \o Sql1(A(k), Txt(A(k), "")) \o "," \o Sql1(B(k), TxtB(B(k), "")) \o ");\n"
                             IN Cat(each(f))
       [] mode = "none" -> ""

\* the function registered last: 1 identity, 2 a text made of the value, 3 always null
Fun(s, x) == CASE s.fn = 1 -> Val(x) [] s.fn = 2 -> "s<" \o Txt(x, "null") \o ">" [] s.fn = 3 -> "z"
LenOf(x) == IF x[1] = "text" THEN Len(x[2]) ELSE 0
\* stable order by length, longest first, then by key
RECURSIVE ByLen(_, _)
ByLen(s, ks) ==
  IF ks = {} THEN <<>>
  ELSE LET m == CHOOSE x \in ks : \A y \in ks : LenOf(Row(s, x)[1]) > LenOf(Row(s, y)[1]) \/ (LenOf(Row(s, x)[1]) = LenOf(Row(s, y)[1]) /\ x <= y)
       IN <<m>> \o ByLen(s, ks \ {m})
Strs(q) == [i \in DOMAIN q |-> ToString(q[i])]

Do(s, e) ==
  LET a == e.a  op == e.op
      one(t, r) == {[s |-> t, r |-> r]}
      fail == one(s, "E")
  IN
  CASE op = "ins" ->      \* form, k, a, b
         IF s.tab[a[2]] # {} THEN fail
         ELSE one([s EXCEPT !.tab[a[2]] = {<<Store(s, a[1], a[3]), StoreB(s, a[1], a[4])>>}], "1")
    [] op = "upd" ->
         IF s.tab[a[2]] = {} THEN one(s, "0")
         ELSE one([s EXCEPT !.tab[a[2]] = {<<Store(s, a[1], a[3]), Row(s, a[2])[2]>>}], "1")
    [] op = "del" -> one([s EXCEPT !.tab[a[2]] = {}], IF s.tab[a[2]] = {} THEN "0" ELSE "1")
    [] op = "q" ->        \* mode, from, options
         one(s, Query(s, a[1], Take(From(s, a[2]), a[3].lim), a[3]))
    [] op = "col" ->      \* column mode: from, limit, lengths of the numbers of each row
         LET ks == Take(From(s, a[1]), a[2])
             ln(t) == IF t = "" THEN 0 ELSE a[3][t]
             f(k) == LET A == Row(s, k)[1]  B == Row(s, k)[2]  tb == TxtB(B, "") IN
                     Pad(ToString(k), 1) \o " " \o Col1(A, Txt(A, ""), ln(Txt(A, "")), <<>>) \o " " \o Pad(tb, ln(tb))
         IN one(s, IF ks = <<>> THEN "" ELSE "k          a          b            \n---------- ---------- ----------\n" \o Join([i \in DOMAIN ks |-> f(ks[i])], "\n"))
    [] op = "cb" ->       \* from, limit, stop after the n-th row (0: never)
         LET ks == Take(Take(From(s, a[1]), a[2]), a[3]) IN
         one(s, Join([i \in DOMAIN ks |-> ToString(ks[i]) \o ":" \o Val(Row(s, ks[i])[1])], ";"))
    [] op = "hold" ->     \* the values a query was given stay, whatever its callback does to the variables they came from: form, value
         one(s, Join([i \in DOMAIN From(s, 1) |-> ToString(From(s, 1)[i]) \o ":" \o Val(Store(s, a[1], a[2]))], ";"))
    [] op = "nest" ->     \* the same statement inside its own callback, once per row and level
         LET ks == From(s, a[1])  f(k) == ToString(k) \o "(" \o Join(Strs(ks), ",") \o ")" IN
         one(s, Join([i \in DOMAIN ks |-> f(ks[i])], ";"))
    [] op = "one" -> LET ks == From(s, a[1]) IN one(s, IF ks = <<>> THEN "u" ELSE Val(Row(s, ks[1])[1]))
    [] op = "ex" -> one(s, IF From(s, a[1]) = <<>> THEN "bF" ELSE "bT")
    [] op = "type" -> one(s, Join([i \in DOMAIN From(s, 1) |-> Row(s, From(s, 1)[i])[1][1]], ","))
    [] op \in {"bad", "cache", "conf"} -> one(s, IF op = "bad" THEN "E" ELSE "ok")
    [] op = "fi" -> one([s EXCEPT !.fi = a[1]], "ok")
    [] op = "func" -> one([s EXCEPT !.fn = a[1]], "ok")
    [] op = "usef" -> IF s.fn = 0 THEN fail
                      ELSE one(s, Join([i \in DOMAIN From(s, 1) |-> Fun(s, Row(s, From(s, 1)[i])[1])], ";"))
    [] op = "coll" -> one(s, Join(Strs(ByLen(s, {k \in Keys(s) : Row(s, k)[1][1] = "text"})), ","))
    [] op = "find" ->     \* rows whose text equals the parameter, however it looks
         one(s, Join(Strs(Sorted({k \in Keys(s) : Row(s, k)[1] = <<"text", a[2]>>})), ","))
    [] op = "copy" ->     \* the insert form, executed, gives the same rows
         one(s, Join([i \in DOMAIN From(s, 1) |-> ToString(From(s, 1)[i]) \o ":" \o Val(Row(s, From(s, 1)[i])[1]) \o ":" \o ValB(Row(s, From(s, 1)[i])[2])], ";"))
    [] op = "csv" ->      \* the csv form, imported, gives the same texts; empty texts become null
         LET x(t) == IF t = "" THEN "z" ELSE "s" \o t
             f(k) == ToString(k) \o ":" \o x(Txt(Row(s, k)[1], "")) \o ":" \o x(TxtB(Row(s, k)[2], "")) IN
         one(s, Join([i \in DOMAIN From(s, 1) |-> f(From(s, 1)[i])], ";"))

Inv(s) == \A k \in 1..MaxK : Cardinality(s.tab[k]) <= 1
StepInv(s, e, t) == e.op \notin {"ins", "upd", "del"} => t.tab = s.tab    \* only these change the table
=============================================================================
