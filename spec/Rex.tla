--------------------------------- MODULE Rex ---------------------------------
(* Property L08: regular expressions.  A pattern is a tree; what it matches is defined here by the set of ends it can reach
   from a place, the match being the leftmost and, there, a longest one (POSIX extended expressions).  Which groups a longest
   match assigns is left open where several ways lead to the same end.  The only state of an expression is lastIndex,
   which only exec on a global expression and assignment change.
   Trees: <<"c", ch>>, <<"any">>, <<"set", chars, negated>>, <<"cat", trees>>, <<"alt", trees>>, <<"rep", tree, min, max>> (max
   99: unbounded), <<"grp", k, tree>>, <<"bol">>, <<"eol">>.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

\* objs: expressions [t: tree, n: groups, g: global, ic: ignore case, li: lastIndex]; v: variable -> number of an expression (0: none)
Init0 == [objs |-> <<>>, v |-> <<0, 0, 0>>]

UpTo == "A" :> "a" @@ "B" :> "b" @@ "C" :> "c"
Low(c) == IF c \in DOMAIN UpTo THEN UpTo[c] ELSE c
Eq(c, d, ic) == c = d \/ (ic /\ Low(c) = Low(d))

RECURSIVE M(_, _, _, _, _), Many(_, _, _, _, _, _, _), Seqs(_, _, _, _, _, _)
\* all <<end, groups>> (places from 0)
M(t, q, i, cap, ic) ==
  LET c == IF i < Len(q) THEN q[i + 1] ELSE "" IN
  CASE t[1] = "c" -> IF i < Len(q) /\ Eq(c, t[2], ic) THEN {<<i + 1, cap>>} ELSE {}
    [] t[1] = "any" -> IF i < Len(q) THEN {<<i + 1, cap>>} ELSE {}
    [] t[1] = "set" -> IF i < Len(q) /\ ((\E k \in 1..Len(t[2]) : Eq(c, t[2][k], ic)) # t[3]) THEN {<<i + 1, cap>>} ELSE {}
    [] t[1] = "bol" -> IF i = 0 THEN {<<i, cap>>} ELSE {}
    [] t[1] = "eol" -> IF i = Len(q) THEN {<<i, cap>>} ELSE {}
    [] t[1] = "grp" -> {<<x[1], [x[2] EXCEPT ![t[2]] = <<i, x[1]>>]>> : x \in M(t[3], q, i, cap, ic)}
    [] t[1] = "alt" -> UNION {M(t[2][k], q, i, cap, ic) : k \in 1..Len(t[2])}
    [] t[1] = "cat" -> Seqs(t[2], 1, q, i, cap, ic)
    [] t[1] = "rep" -> Many(t[2], t[3], t[4], q, i, cap, ic)
Seqs(ts, k, q, i, cap, ic) ==
  IF k > Len(ts) THEN {<<i, cap>>} ELSE UNION {Seqs(ts, k + 1, q, x[1], x[2], ic) : x \in M(ts[k], q, i, cap, ic)}
Many(t, lo, hi, q, i, cap, ic) ==
  (IF lo = 0 THEN {<<i, cap>>} ELSE {}) \cup
  (IF hi = 0 THEN {} ELSE UNION {Many(t, IF lo = 0 THEN 0 ELSE lo - 1, IF hi = 99 THEN 99 ELSE hi - 1, q, x[1], x[2], ic) : x \in {y \in M(t, q, i, cap, ic) : y[1] > i \/ lo > 0}})

NoCap(n) == [k \in 1..n |-> <<-1, -1>>]
\* the match at or behind place p: {} or the set of <<start, end, groups>> it may be
RECURSIVE Find(_, _, _)
Find(o, q, p) ==
  IF p > Len(q) THEN {}
  ELSE LET E == M(o.t, q, p, NoCap(o.n), o.ic) IN
       IF E = {} THEN Find(o, q, p + 1)
       ELSE LET z == CHOOSE x \in {y[1] : y \in E} : \A y \in E : y[1] <= x IN {<<p, x[1], x[2]>> : x \in {y \in E : y[1] = z}}
\* all matches from p on: the set of sequences they may be.  An empty match is stepped over.
RECURSIVE All(_, _, _)
All(o, q, p) ==
  LET F == Find(o, q, p) IN
  IF F = {} THEN {<<>>}
  ELSE LET f == CHOOSE x \in F : TRUE
           rest == IF f[1] = f[2] THEN (IF f[2] >= Len(q) THEN {<<>>} ELSE All(o, q, f[2] + 1)) ELSE All(o, q, f[2])
       IN {<<x>> \o r : x \in F, r \in rest}
Cut(q, a, b) == IF a < 0 THEN <<"z", <<>>>> ELSE <<"s", SubSeq(q, a + 1, b)>>
Whole(q, m) == Cut(q, m[1], m[2])
Groups(q, m) == [k \in 1..Len(m[3]) |-> Cut(q, m[3][k][1], m[3][k][2])]
Arr(q, m) == <<Whole(q, m)>> \o Groups(q, m)
Txt(x) == IF x[1] = "z" THEN <<"n", "u", "l", "l">> ELSE x[2]
Num(n) == <<ToString(n)>>
Digits(n) == IF n < 10 THEN <<ToString(n)>> ELSE <<ToString(n \div 10), ToString(n % 10)>>
\* what a replacement text means
RECURSIVE Expand(_, _, _)
Expand(tpl, q, m) ==
  IF tpl = <<>> THEN <<>>
  ELSE LET x == tpl[1] IN
       (CASE x[1] = "t" -> x[2]
          [] x[1] = "&" -> SubSeq(q, m[1] + 1, m[2])
          [] x[1] = "$" -> <<"$">>
          [] x[1] = "n" -> IF x[2] > Len(m[3]) \/ m[3][x[2]][1] < 0 THEN <<>> ELSE SubSeq(q, m[3][x[2]][1] + 1, m[3][x[2]][2])
          [] x[1] = "pre" -> SubSeq(q, 1, m[1])
          [] x[1] = "post" -> SubSeq(q, m[2] + 1, Len(q))) \o Expand(Tail(tpl), q, m)
\* the text with the matches ms (in order) replaced by the texts rs / what R gives for each
RECURSIVE SubstAll(_, _, _, _)
SubstAll(q, p, ms, rs) == IF ms = <<>> THEN SubSeq(q, p + 1, Len(q))
                         ELSE SubSeq(q, p + 1, ms[1][1]) \o rs[1] \o SubstAll(q, ms[1][2], Tail(ms), Tail(rs))
Subst(q, p, ms, R(_)) == SubstAll(q, p, ms, [k \in 1..Len(ms) |-> R(ms[k])])
Ones(F) == IF F = {} THEN {<<>>} ELSE {<<x>> : x \in F}

Do(s, e) ==
  LET a == e.a  op == e.op
      i == a[1]
      has == op \notin {"mk", "bad", "copy", "matchs"} /\ s.v[i] # 0
      o == IF has THEN s.objs[s.v[i]] ELSE [t |-> <<"any">>, n |-> 0, g |-> FALSE, ic |-> FALSE, li |-> 0]
      one(t, r) == {[s |-> t, r |-> r]}
      li(n) == [s EXCEPT !.objs[s.v[i]].li = n]
      ms(q) == IF o.g THEN All(o, q, 0) ELSE Ones(Find(o, q, 0))
  IN
  CASE op = "mk" -> \* variable, tree, groups, global, ignore case, how (a literal, the constructor)
         one([s EXCEPT !.objs = Append(@, [t |-> a[2], n |-> a[3], g |-> a[4], ic |-> a[5], li |-> 0]), !.v[i] = Len(s.objs) + 1], <<"ok", <<>>>>)
    [] op = "bad" -> one(s, <<"e", <<>>>>)                    \* variable, a text that is no pattern
    [] op = "copy" -> one([s EXCEPT !.v[i] = s.v[a[2]]], <<"ok", <<>>>>)
    [] op = "matchs" ->   \* a match with a string of plain characters as the pattern; the string remains what it was
         LET t == [t |-> <<"cat", [k \in 1..Len(a[3]) |-> <<"c", a[3][k]>>]>>, n |-> 0, g |-> FALSE, ic |-> FALSE, li |-> 0]
             F == Find(t, a[2], 0) IN
         IF F = {} THEN one(s, <<"z", <<>>>>) ELSE {[s |-> s, r |-> <<"l", Arr(a[2], m)>>] : m \in F}
    [] ~has -> one(s, <<"-", <<>>>>)
    [] op = "test" -> one(s, <<"b", <<IF Find(o, a[2], 0) = {} THEN "false" ELSE "true">>>>)
    [] op = "search" -> LET F == Find(o, a[2], 0) IN IF F = {} THEN one(s, <<"n", Num(-1)>>) ELSE {[s |-> s, r |-> <<"n", Num(m[1])>>] : m \in F}
    [] op = "exec" ->
         LET F == Find(o, a[2], IF o.g /\ o.li > 0 THEN o.li ELSE 0) IN
         IF F = {} THEN one(IF o.g THEN li(0) ELSE s, <<"z", <<>>>>)
         ELSE {[s |-> IF o.g THEN li(m[2]) ELSE s, r |-> <<"l", Arr(a[2], m)>>] : m \in F}
    [] op = "getLast" -> one(s, <<"n", Num(o.li)>>)
    [] op = "setLast" -> IF o.g THEN one(li(a[2]), <<"n", Num(a[2])>>) ELSE one(s, <<"-", <<>>>>)
    [] op = "match" ->
         IF o.g THEN {[s |-> s, r |-> IF L = <<>> THEN <<"z", <<>>>> ELSE <<"l", [k \in 1..Len(L) |-> Whole(a[2], L[k])]>>] : L \in All(o, a[2], 0)}
         ELSE LET F == Find(o, a[2], 0) IN IF F = {} THEN one(s, <<"z", <<>>>>) ELSE {[s |-> s, r |-> <<"l", Arr(a[2], m)>>] : m \in F}
    [] op = "replace" -> \* text, replacement
         {[s |-> s, r |-> <<"s", Subst(a[2], 0, L, LAMBDA m : Expand(a[3], a[2], m))>>] : L \in ms(a[2])}
    [] op = "replace1" -> \* function of the match: "<" match ">"
         {[s |-> s, r |-> <<"s", Subst(a[2], 0, L, LAMBDA m : <<"<">> \o Whole(a[2], m)[2] \o <<">">>)>>] : L \in ms(a[2])}
    [] op = "replaceN" -> \* function of match, groups, offset and text: their texts, joined by ":"; a[3]: from which call on it throws (0: never)
         {[s |-> s, r |-> IF a[3] > 0 /\ Len(L) >= a[3] THEN <<"e", <<>>>>
                          ELSE <<"s", Subst(a[2], 0, L, LAMBDA m :
                             <<"<">> \o Whole(a[2], m)[2] \o FoldLeft(LAMBDA x, y : x \o <<":">> \o Txt(y), <<>>, Groups(a[2], m)) \o <<":">> \o Digits(m[1]) \o <<":">> \o a[2] \o <<">">>)>>] : L \in ms(a[2])}

Inv(s) == \A i \in 1..3 : s.v[i] <= Len(s.objs)
\* only exec and an assignment to lastIndex change an expression, and only the one they are performed on; and the operations
\* agree about matches
StepInv(s, e, t) ==
  /\ e.op \notin {"exec", "setLast", "mk", "copy"} => t = s
  /\ e.op \in {"exec", "setLast"} => \A k \in 1..Len(s.objs) : k # s.v[e.a[1]] => t.objs[k] = s.objs[k]
  /\ e.op \in {"exec", "match", "test"} /\ s.v[e.a[1]] # 0 =>
       LET o == s.objs[s.v[e.a[1]]]  q == e.a[2] IN
       /\ \A L \in All(o, q, 0) : \A k \in 1..Len(L) : k > 1 => L[k][1] >= L[k - 1][2] /\ (L[k][1] = L[k][2] => L[k][1] > L[k - 1][1])
       /\ (All(o, q, 0) = {<<>>}) = (Find(o, q, 0) = {})
=============================================================================
