--------------------------------- MODULE Arr ---------------------------------
(* Arrays.  State: four registers (variables of the program) naming arrays in a heap; an array is a
   sequence of elements: scalars "n5" "sab" "u" "z" "bT" "bF", a hole, or a reference "@k" to heap array k.
   An operation returns [ret, contents of every register], so a change that leaks through an alias, or one
   that fails to show through it, is observed.                                                         *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
HOLE == "hole"
MaxId == 200
RefStr == TLCEval([i \in 1..MaxId |-> "@" \o ToString(i)])
RefSet == TLCEval({RefStr[i] : i \in 1..MaxId})
RefOf == TLCEval([r \in RefSet |-> CHOOSE i \in 1..MaxId : RefStr[i] = r])
IsRef(v) == SubSeq(v, 1, 1) = "@"
RegArg == {"R1", "R2", "R3", "R4"}
RegOf == [r \in RegArg |-> CASE r = "R1" -> 1 [] r = "R2" -> 2 [] r = "R3" -> 3 [] r = "R4" -> 4]
Regs == 1..4

Init0 == [reg |-> <<1, 2, 3, 4>>, heap |-> <<<<>>, <<>>, <<>>, <<>>>>]

Body(v) == SubSeq(v, 2, Len(v))
RECURSIVE Cat(_, _)
Cat(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Cat(Tail(ss), sep)

\* what the program sees when it walks an array: a sequence of tokens
RECURSIVE Disp(_, _, _)
DispV(h, v, d) == IF v = HOLE THEN <<"u">>
                  ELSE IF ~IsRef(v) THEN <<v>>
                  ELSE IF d = 0 THEN <<"#">> ELSE Disp(h, RefOf[v], d - 1)
Disp(h, id, d) == <<"[">> \o FlattenSeq([i \in 1..Len(h[id]) |-> DispV(h, h[id][i], d)]) \o <<"]">>
Dump(s) == [i \in Regs |-> Disp(s.heap, s.reg[i], 3)]

\* string conversion
Show(v) == CASE v = "u" -> "undefined"
             [] v = "z" -> "null"
             [] v = "bT" -> "true"
             [] v = "bF" -> "false"
             [] IsRef(v) -> "[object Object]"
             [] OTHER -> Body(v)

Num(n) == "n" \o ToString(n)
Bool(b) == IF b THEN "bT" ELSE "bF"

\* register arguments denote the array the register holds
Val(s, v) == IF v \in RegArg THEN RefStr[s.reg[RegOf[v]]] ELSE v
Vals(s, vs) == [i \in 1..Len(vs) |-> Val(s, vs[i])]

ResT(s, toks) == [s |-> s, r |-> <<toks>> \o Dump(s)]
Res(s, ret) == ResT(s, <<ret>>)
Put(s, x, seq) == [s EXCEPT !.heap[s.reg[x]] = seq]
New(s, dst, seq) == [s EXCEPT !.heap = Append(@, seq), !.reg[dst] = Len(s.heap) + 1]
Arr(s, x) == s.heap[s.reg[x]]
Holes(n) == [i \in 1..n |-> HOLE]

\* slice and fill: inclusive bounds; start beyond the end, or further back than the beginning, selects nothing
SelRange(n, start, end) ==
  LET i0 == IF start < 0 THEN n + start ELSE start
      e0 == IF end >= n THEN n - 1 ELSE end
      e1 == IF e0 < 0 THEN n + e0 ELSE e0
  IN IF start > n \/ i0 < 0 \/ n = 0 \/ e1 < 0 \/ e1 < i0 THEN <<1, 0>> ELSE <<i0 + 1, e1 + 1>>

FirstIdx(a, v, from) == LET c == {i \in from..Len(a) : a[i] = v} IN
                        IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
LastIdx(a, v) == LET c == {i \in 1..Len(a) : a[i] = v} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i

StartPos(n, start) == \* 1-based, 0 when out of range
  IF start > n THEN 0 ELSE IF start >= 0 THEN start + 1 ELSE IF n + start < 0 THEN 0 ELSE n + start + 1

RECURSIVE Flat(_, _, _)
Flat(h, a, d) ==
  IF a = <<>> THEN <<>>
  ELSE LET x == Head(a) IN
       (IF IsRef(x) /\ d > 0 THEN Flat(h, h[RefOf[x]], d - 1) ELSE IF x \in {HOLE, "u"} THEN <<>> ELSE <<x>>)
       \o Flat(h, Tail(a), d)

RECURSIVE ConcatArgs(_, _)
ConcatArgs(s, vs) == IF vs = <<>> THEN <<>>
                     ELSE (IF IsRef(vs[1]) THEN s.heap[RefOf[vs[1]]] ELSE <<vs[1]>>) \o ConcatArgs(s, Tail(vs))

\* join: holes vanish, and every element after the first position brings the separator
Join(s, a, sep) == Cat([i \in 1..Len(a) |-> IF a[i] = HOLE THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o Show(a[i])], "")

Do(s, e) ==
  LET x == e.a[1]
      a == Arr(s, x)
      n == Len(a)
  IN
  CASE e.op = "lit" ->     \* x = [vals]
         {Res(New(s, x, Vals(s, e.a[2])), "u")}
    [] e.op = "newn" ->    \* x = new Array(n)
         {Res(New(s, x, Holes(e.a[2])), "u")}
    [] e.op = "alias" ->   \* x = y
         {Res([s EXCEPT !.reg[x] = s.reg[e.a[2]]], "u")}
    [] e.op = "push" ->
         LET q == a \o Vals(s, e.a[2]) IN {Res(Put(s, x, q), Num(Len(q)))}
    [] e.op = "pop" ->
         IF n = 0 THEN {Res(s, "u")}
         ELSE {ResT(Put(s, x, SubSeq(a, 1, n - 1)), DispV(s.heap, a[n], 3))}
    [] e.op = "shift" ->
         IF n = 0 THEN {Res(s, "u")}
         ELSE {ResT(Put(s, x, Tail(a)), DispV(s.heap, a[1], 3))}
    [] e.op = "unshift" ->
         IF e.a[2] = <<>> THEN {Res(s, "n0")}
         ELSE LET q == Vals(s, e.a[2]) \o a IN {Res(Put(s, x, q), Num(Len(q)))}
    [] e.op = "splice" ->  \* <<x, dst, start, howmany, vals>>;  howmany "-" when absent
         LET start == e.a[3]
             i0 == IF start < 0 THEN (IF n + start < 0 THEN 0 ELSE n + start) ELSE start
             hm0 == IF e.a[4] = <<>> THEN n - i0 ELSE e.a[4][1]
             hm == IF hm0 >= n - i0 \/ hm0 < 0 THEN n - i0 ELSE hm0
             ins == Vals(s, e.a[5])
         IN IF start > n THEN {Res(New(s, e.a[2], <<>>), "u")}
            ELSE LET s1 == Put(s, x, SubSeq(a, 1, i0) \o ins \o SubSeq(a, i0 + hm + 1, n))
                 IN {Res(New(s1, e.a[2], SubSeq(a, i0 + 1, i0 + hm)), "u")}
    [] e.op = "slice" ->   \* <<x, dst, start, end>>
         LET g == SelRange(n, e.a[3], IF e.a[4] = <<>> THEN n - 1 ELSE e.a[4][1])
         IN {Res(New(s, e.a[2], SubSeq(a, g[1], g[2])), "u")}
    [] e.op = "fill" ->    \* <<x, dst, v, start, end>>: in place, returns the array itself
         LET g == SelRange(n, IF e.a[4] = <<>> THEN 0 ELSE e.a[4][1], IF e.a[5] = <<>> THEN n - 1 ELSE e.a[5][1])
             s1 == Put(s, x, [i \in 1..n |-> IF i >= g[1] /\ i <= g[2] THEN Val(s, e.a[3]) ELSE a[i]])
         IN {Res([s1 EXCEPT !.reg[e.a[2]] = s.reg[x]], "u")}
    [] e.op = "reverse" -> \* <<x, dst>>: in place, returns the array itself
         LET s1 == Put(s, x, Reverse(a)) IN {Res([s1 EXCEPT !.reg[e.a[2]] = s.reg[x]], "u")}
    [] e.op = "concat" ->  \* <<x, dst, vals>>
         {Res(New(s, e.a[2], a \o ConcatArgs(s, Vals(s, e.a[3]))), "u")}
    [] e.op = "flat" ->    \* <<x, dst, depth>>
         LET d == IF e.a[3] = <<>> THEN 1 ELSE e.a[3][1] IN
         IF d < 0 \/ d > 1000 THEN {Res(s, "!")}
         ELSE {Res(New(s, e.a[2], IF d = 0 THEN <<>> ELSE Flat(s.heap, a, d)), "u")}
    [] e.op = "join" ->
         \* deviation JoinConverts: the joined elements become strings in place (tests/array.jsi relies on it)
         {Res(Put(s, x, [i \in 1..n |-> IF a[i] = HOLE THEN HOLE ELSE "s" \o Show(a[i])]),
              "s" \o Join(s, a, IF e.a[2] = <<>> THEN "" ELSE e.a[2][1]))}
    [] e.op = "indexOf" -> \* <<x, v, start>>
         LET p == IF e.a[3] = <<>> THEN 1 ELSE StartPos(n, e.a[3][1])
         IN {Res(s, Num(IF n = 0 \/ p = 0 THEN -1 ELSE FirstIdx(a, e.a[2], p) - 1))}
    [] e.op = "lastIndexOf" ->
         {Res(s, Num(LastIdx(a, e.a[2]) - 1))}
    [] e.op = "includes" -> {Res(s, Bool(FirstIdx(a, e.a[2], 1) > 0))}
    [] e.op = "get" ->
         LET i == e.a[2] IN {ResT(s, IF i < 0 \/ i >= n THEN <<"u">> ELSE DispV(s.heap, a[i + 1], 3))}
    [] e.op = "set" ->     \* x[i] = v
         LET i == e.a[2] + 1
             v == Val(s, e.a[3])
         IN {Res(Put(s, x, IF i <= n THEN [a EXCEPT ![i] = v] ELSE a \o Holes(i - 1 - n) \o <<v>>), "u")}
    [] e.op = "length" ->  {Res(s, Num(n))}
    [] e.op = "sizeOf" ->  {Res(s, Num(n))}
    [] e.op = "isArray" -> {Res(s, "bT")}
    [] e.op = "incr" ->    \* x[i]++ on a number element
         LET i == e.a[2] + 1 IN
         {Res(Put(s, x, [a EXCEPT ![i] = Num(e.a[3] + 1)]), Num(e.a[3]))}
    [] e.op = "read" ->    \* reg = x[i] and then reg changed: arrays are shared, scalars copied
         {Res(s, "u")}

Inv(s) == /\ \A i \in Regs : s.reg[i] \in 1..Len(s.heap)
          /\ \A k \in 1..Len(s.heap) : \A i \in 1..Len(s.heap[k]) :
               IsRef(s.heap[k][i]) => RefOf[s.heap[k][i]] \in 1..Len(s.heap)

\* laws every step must obey, whatever the operation (checked by TLC on every explored transition)
Pure == {"indexOf", "lastIndexOf", "includes", "get", "length", "sizeOf", "isArray", "slice", "concat", "flat"}
Contents(s, i) == Disp(s.heap, s.reg[i], 3)
StepInv(s, e, s2) ==
  LET x == e.a[1] IN
  /\ Inv(s2)
  /\ e.op \in Pure => \A k \in 1..Len(s.heap) : s2.heap[k] = s.heap[k]
  \* an operation on x changes no other array object
  /\ e.op \notin {"lit", "newn", "alias"} => \A k \in 1..Len(s.heap) : k # s.reg[x] => s2.heap[k] = s.heap[k]
  \* and is seen through every alias of x
  /\ e.op \in {"push", "pop", "shift", "unshift", "set", "incr"} =>
       \A i, j \in Regs : (s.reg[i] = s.reg[j]) = (s2.reg[i] = s2.reg[j])
  \* removal and the rest partition the array
  /\ e.op = "splice" /\ e.a[5] = <<>> =>
       Len(s.heap[s.reg[x]]) = Len(s2.heap[s.reg[x]]) + Len(s2.heap[s2.reg[e.a[2]]])
  /\ e.op \in {"fill", "reverse", "join"} => Len(s2.heap[s.reg[x]]) = Len(s.heap[s.reg[x]])
=============================================================================
