--------------------------------- MODULE Str ---------------------------------
(* Property L07: strings are sequences of characters.  v: four variables of the script holding strings; o: an object whose
   properties are named by strings.  A string is a sequence of one-character strings, so a method that counts bytes or cuts
   a character cannot agree with it.  Results are pairs of a kind and a sequence.

   Conventions that are this language's own (its tests say so): the end of substring is inclusive; an index before the
   beginning counts from the end in substr and substring; the second argument of slice is
   judged only where its readings agree (see Slice); lastIndexOf looks behind its start; trim takes the characters to remove; split(null)
   splits on white space; map replaces the first key of the list that matches at each place. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Slots == 1..4
Init0 == [v |-> [i \in Slots |-> <<>>], o |-> <<>>]

\* the alphabet, with code points and cases (eac: e with acute, EAC: its capital, han: a character of 3 bytes, smi: one of 4)
Code == [c \in {"a"} |-> "97"] @@ "b" :> "98" @@ "c" :> "99" @@ "x" :> "120" @@ "A" :> "65" @@ "B" :> "66" @@ "C" :> "67" @@ "X" :> "88" @@ "eac" :> "233" @@ "EAC" :> "201"
        @@ "han" :> "20013" @@ "smi" :> "128512" @@ " " :> "32" @@ "\t" :> "9" @@ "\n" :> "10" @@ "," :> "44" @@ "1" :> "49" @@ "<" :> "60" @@ ">" :> "62" @@ "." :> "46" @@ "$" :> "36"
Upper == "a" :> "A" @@ "b" :> "B" @@ "c" :> "C" @@ "x" :> "X"
Lower == "A" :> "a" @@ "B" :> "b" @@ "C" :> "c" @@ "X" :> "x"
Rank == "\t" :> 9 @@ "\n" :> 10 @@ " " :> 32 @@ "$" :> 36 @@ "," :> 44 @@ "." :> 46 @@ "1" :> 49 @@ "<" :> 60 @@ ">" :> 62 @@ "A" :> 65 @@ "B" :> 66 @@ "C" :> 67 @@ "X" :> 88 @@ "a" :> 97
        @@ "b" :> 98 @@ "c" :> 99 @@ "x" :> 120 @@ "EAC" :> 201 @@ "eac" :> 233 @@ "han" :> 20013 @@ "smi" :> 128512
Wide == {"eac", "EAC", "han", "smi"}
White == {" ", "\t", "\n"}
Up(c) == IF c \in DOMAIN Upper THEN Upper[c] ELSE c
Lo(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c
MapC(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
\* characters from index i (from 0), n of them, within the string
Sub(q, i, n) == IF n <= 0 \/ i >= Len(q) THEN <<>> ELSE SubSeq(q, Mx(i, 0) + 1, Mn(Len(q), i + n))
From(q, i) == Sub(q, i, Len(q))
IsAt(q, w, i) == i + Len(w) <= Len(q) /\ \A j \in 1..Len(w) : q[i + j] = w[j]
Places(q, w, from) == {i \in from..Len(q) : IsAt(q, w, i)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
FirstAt(q, w, from) == LET P == Places(q, w, Mx(from, 0)) IN IF P = {} THEN -1 ELSE Least(P)
LastAt(q, w, from) == LET P == Places(q, w, Mx(from, 0)) IN IF P = {} THEN -1 ELSE Most(P)
Parts(q) == {Sub(q, i, n) : i \in 0..Len(q), n \in 0..Len(q)}
Wrap(q, i) == IF i >= 0 THEN i ELSE IF Len(q) = 0 THEN 0 ELSE i % Len(q)

RECURSIVE Split(_, _)
Split(q, w) == LET p == FirstAt(q, w, 0) IN IF p < 0 THEN <<q>> ELSE <<Sub(q, 0, p)>> \o Split(From(q, p + Len(w)), w)
RECURSIVE Words(_, _)
Words(q, acc) == IF q = <<>> THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>)
                 ELSE IF Head(q) \in White THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>) \o Words(Tail(q), <<>>)
                 ELSE Words(Tail(q), Append(acc, Head(q)))
RECURSIVE TrimL(_, _)
TrimL(q, S) == IF q # <<>> /\ Head(q) \in S THEN TrimL(Tail(q), S) ELSE q
TrimR(q, S) == Reverse(TrimL(Reverse(q), S))
RECURSIVE Rep(_, _)
Rep(q, n) == IF n <= 0 THEN <<>> ELSE q \o Rep(q, n - 1)
Fold(q, nc) == IF nc THEN MapC(Lo, q) ELSE q
\* tbl: sequence of <<key, replacement>>
RECURSIVE MapS(_, _, _)
MapS(q, tbl, nc) ==
  IF q = <<>> THEN <<>>
  ELSE LET hit == {i \in 1..Len(tbl) : IsAt(Fold(q, nc), Fold(tbl[i][1], nc), 0)} IN
       IF hit = {} THEN <<Head(q)>> \o MapS(Tail(q), tbl, nc)
       ELSE LET i == Least(hit) IN tbl[i][2] \o MapS(From(q, Len(tbl[i][1])), tbl, nc)
\* (from 0) what slice may give: with start 0 or no end, all readings of its second argument agree
Slice(q, i, e) ==
  LET n == Len(q)
      b == Mn(n, Mx(0, IF i < 0 THEN n + i ELSE i))
      f == Mn(n, IF e < 0 THEN n + e ELSE e) IN
  IF b = 0 THEN {Sub(q, 0, f)}
  ELSE IF f < b THEN Parts(q)
  ELSE {Sub(q, b, f - b), Sub(q, b, f), Sub(q, b, f - b + 1)}
RECURSIVE Less(_, _)
Less(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
              ELSE IF p[1] = q[1] THEN Less(Tail(p), Tail(q)) ELSE Rank[p[1]] < Rank[q[1]]
B(b) == IF b THEN "true" ELSE "false"

Do(s, e) ==
  LET a == e.a  op == e.op
      d == a[1]                                   \* where the string goes (0: nowhere)
      Put(q) == IF d = 0 THEN s ELSE [s EXCEPT !.v[d] = q]
      Str(q) == {[s |-> Put(q), r |-> <<"s", q>>]}
      AnyOf(Q) == UNION {Str(q) : q \in Q}
      Num(n) == {[s |-> s, r |-> <<"n", <<ToString(n)>>>>]}
      Lst(L) == {[s |-> s, r |-> <<"l", L>>]}
      Err == {[s |-> s, r |-> <<"e", <<>>>>]}
      q == IF Len(a) >= 2 /\ op # "lit" /\ op \notin {"codes", "fill"} THEN s.v[a[2]] ELSE <<>>
  IN
  CASE op = "fill" -> {[s |-> [s EXCEPT !.v = [i \in Slots |-> a[2][i]]], r |-> <<"l", a[2]>>]}
    [] op = "lit" -> Str(a[2])
    [] op = "copy" -> Str(q)
    [] op = "plus" -> Str(q \o s.v[a[3]])
    [] op = "app" -> {[s |-> [s EXCEPT !.v[d] = @ \o q], r |-> <<"s", s.v[d] \o q>>]}
    [] op = "all" -> Lst([i \in 1..4 |-> s.v[i]])
    [] op = "len" -> Num(Len(q))
    [] op = "charAt" -> Str(IF a[3] \in 0..(Len(q) - 1) THEN <<q[a[3] + 1]>> ELSE <<>>)
    [] op = "index" -> IF a[3] \in 0..(Len(q) - 1) THEN {[s |-> Put(<<q[a[3] + 1]>>), r |-> <<"s", <<q[a[3] + 1]>>>>]} ELSE {[s |-> s, r |-> <<"u", <<>>>>]}
    [] op = "code" -> IF a[3] \in 0..(Len(q) - 1) THEN {[s |-> s, r |-> <<"n", <<Code[q[a[3] + 1]]>>>>]} ELSE {[s |-> s, r |-> <<"n", <<"NaN">>>>]}
    [] op = "codes" -> Str(a[2])                                     \* fromCharCode of the characters' codes
    [] op = "concat" -> Str(q \o s.v[a[3]] \o s.v[a[4]])
    [] op = "indexOf" -> Num(FirstAt(q, s.v[a[3]], 0))
    [] op = "indexFrom" -> IF s.v[a[3]] = <<>> /\ a[4] > Len(q) THEN Num(-1) \cup Num(Len(q)) ELSE Num(FirstAt(q, s.v[a[3]], a[4]))
    [] op = "lastIndexOf" -> IF s.v[a[3]] = <<>> THEN UNION {Num(x) : x \in -1..Len(q)} ELSE Num(LastAt(q, s.v[a[3]], 0))
    [] op = "lastFrom" -> IF s.v[a[3]] = <<>> THEN UNION {Num(x) : x \in -1..Len(q)} ELSE Num(LastAt(q, s.v[a[3]], a[4]))
    [] op = "substr0" -> Str(q)
    [] op = "substr1" -> IF a[3] < -Len(q) THEN AnyOf({q, From(q, Wrap(q, a[3]))}) ELSE Str(From(q, Wrap(q, a[3])))
    [] op = "substr2" -> IF a[3] < -Len(q) THEN AnyOf({Sub(q, 0, a[4]), Sub(q, Wrap(q, a[3]), a[4])}) ELSE Str(Sub(q, Wrap(q, a[3]), a[4]))
    [] op = "substring0" -> Str(q)
    [] op = "substring1" -> IF a[3] < -Len(q) THEN AnyOf({q, From(q, Wrap(q, a[3]))}) ELSE Str(From(q, Wrap(q, a[3])))
    [] op = "substring2" -> IF a[3] < 0 THEN AnyOf(Parts(q)) ELSE Str(Sub(q, a[3], Mn(a[4], Len(q)) - a[3] + 1))
    [] op = "slice1" -> Str(From(q, Mx(0, IF a[3] < 0 THEN Len(q) + a[3] ELSE a[3])))
    [] op = "slice2" -> AnyOf(Slice(q, a[3], a[4]))
    [] op = "split" -> IF s.v[a[3]] = <<>> /\ ToSet(q) \cap Wide # {} THEN Lst(<<<<"b">>>>)   \* documented to split on bytes
                       ELSE IF s.v[a[3]] = <<>> THEN Lst([i \in 1..Len(q) |-> <<q[i]>>]) ELSE Lst(Split(q, s.v[a[3]]))
    [] op = "words" -> Lst(Words(q, <<>>))
    [] op = "join" -> Str(q)         \* split on a string and join with it again
    [] op = "repeat" -> IF a[3] < 0 THEN Err ELSE Str(Rep(q, a[3]))
    [] op = "trim" -> Str(TrimR(TrimL(q, White), White))
    [] op = "trimLeft" -> Str(TrimL(q, White))
    [] op = "trimRight" -> Str(TrimR(q, White))
    [] op = "trimc" -> LET S == ToSet(s.v[a[3]]) IN Str(TrimR(TrimL(q, S), S))
    [] op = "trimLeftc" -> Str(TrimL(q, ToSet(s.v[a[3]])))
    [] op = "trimRightc" -> Str(TrimR(q, ToSet(s.v[a[3]])))
    [] op = "toUpperCase" -> Str(MapC(Up, q))
    [] op = "toLowerCase" -> Str(MapC(Lo, q))
    [] op = "toTitle" -> Str(IF q = <<>> THEN q ELSE <<Up(Head(q))>> \o MapC(Lo, Tail(q)))
    [] op = "map" ->                                                  \* keys and replacements in slots; nocase
         LET n == Len(a[3]) IN
         IF n % 2 = 1 THEN Err
         ELSE LET tbl == [i \in 1..(n \div 2) |-> <<s.v[a[3][2 * i - 1]], s.v[a[3][2 * i]]>>] IN
              IF \E i \in 1..Len(tbl) : tbl[i][1] = <<>> THEN Err \cup Str(MapS(q, SelectSeq(tbl, LAMBDA p : p[1] # <<>>), a[4]))
              ELSE Str(MapS(q, tbl, a[4]))
    [] op = "replace" ->                                              \* the first occurrence, by a string
         LET p == FirstAt(q, s.v[a[3]], 0) IN Str(IF p < 0 THEN q ELSE Sub(q, 0, p) \o s.v[a[4]] \o From(q, p + Len(s.v[a[3]])))
    [] op = "replacef" ->                                             \* by a function that gives "<" match ">"
         LET p == FirstAt(q, s.v[a[3]], 0) IN Str(IF p < 0 THEN q ELSE Sub(q, 0, p) \o <<"<">> \o s.v[a[3]] \o <<">">> \o From(q, p + Len(s.v[a[3]])))
    [] op = "search" -> Num(FirstAt(q, s.v[a[3]], 0))
    [] op = "cmp" -> LET w == s.v[a[3]] IN Lst(<<<<B(Less(q, w)), B(q = w), B(Less(w, q)), B(~Less(q, w)), B(~Less(w, q)), B(q = w)>>>>)
    [] op = "oput" -> {[s |-> [s EXCEPT !.o = SelectSeq(@, LAMBDA p : p[1] # q) \o <<<<q, a[3]>>>>], r |-> <<"n", <<ToString(a[3])>>>>]}
    [] op = "oget" -> LET m == SelectSeq(s.o, LAMBDA p : p[1] = q) IN IF m = <<>> THEN {[s |-> s, r |-> <<"u", <<>>>>]} ELSE Num(m[1][2])
    [] op = "okeys" -> Lst(SortSeq([i \in 1..Len(s.o) |-> s.o[i][1]], Less))

Inv(s) == \A i, j \in 1..Len(s.o) : i # j => s.o[i][1] # s.o[j][1]
\* laws the methods obey among themselves, whatever the strings
StepInv(s, e, t) ==
  /\ \A i \in Slots : i # e.a[1] /\ e.op # "fill" => t.v[i] = s.v[i]
  /\ e.op \in {"oput"} \/ t.o = s.o
  /\ e.op # "fill" \/ \A i, j \in Slots : LET q == t.v[i]  w == t.v[j] IN
       /\ FirstAt(q, w, 0) >= 0 => IsAt(q, w, FirstAt(q, w, 0)) /\ LastAt(q, w, 0) >= FirstAt(q, w, 0)
       /\ (w # <<>> /\ FirstAt(q, w, 0) >= 0) => Len(Split(q, w)) >= 2
       /\ w # <<>> => FoldLeft(LAMBDA x, y : x \o w \o y, Split(q, w)[1], Tail(Split(q, w))) = q
       /\ Cardinality({k \in 1..3 : <<Less(q, w), q = w, Less(w, q)>>[k]}) = 1
=============================================================================
