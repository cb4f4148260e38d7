-------------------------------- MODULE Iter --------------------------------
(* Iteration over one array with callbacks that may do anything: read, modify the array under the iteration,
   iterate it again, throw.  State: the array, a sequence of tokens ("n5" "sab" "u" ...) and holes.
   An iteration [method, number of parameters of the callback, initial value, this?, script] performs the k-th
   action of its script at the k-th call and reports every call it received (arguments and identity of the
   array), the result and the array afterwards.                                                        *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
HOLE == "hole"
Init0 == [a |-> <<>>]
Inv(s) == \A i \in 1..Len(s.a) : s.a[i] # ""
StepInv(s, e, t) == TRUE

Live(m) == m \in {"forEach", "find", "findIndex", "some", "every"}
Num(n) == "n" \o ToString(n)
True(v) == v \notin {"u", "z", "bF", "n0", "s"}
Vis(v) == IF v = HOLE THEN "u" ELSE v
Dump(a) == [i \in 1..Len(a) |-> Vis(a[i])]
Cut(a, i, n) == SubSeq(a, 1, i - 1) \o SubSeq(a, i + n, Len(a))
Pad(a, n) == IF Len(a) >= n THEN a ELSE a \o [i \in 1..(n - Len(a)) |-> HOLE]

\* what a callback does to the array: [act, i, v, ret]
Act(a, c) ==
  CASE c[1] = "push" -> Append(a, c[3])
    [] c[1] = "unshift" -> <<c[3]>> \o a
    [] c[1] = "pop" -> IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1)
    [] c[1] = "shift" -> IF a = <<>> THEN a ELSE Tail(a)
    [] c[1] = "set" -> [Pad(a, c[2] + 1) EXCEPT ![c[2] + 1] = c[3]]
    [] c[1] = "splice" -> IF c[2] >= Len(a) THEN a ELSE Cut(a, c[2] + 1, 1)
    [] c[1] = "clear" -> <<>>
    [] c[1] = "chop" -> SubSeq(a, 1, IF Len(a) > c[2] THEN Len(a) - c[2] ELSE 0)
    [] c[1] = "chophead" -> SubSeq(a, c[2] + 1, Len(a))
    [] c[1] = "refill" -> <<c[3]>>
    [] c[1] = "reverse" -> Reverse(a)
    [] OTHER -> a       \* none, setp (assign the parameter), nest (iterate again), drop (forget the variable)
NoAct == <<"none", 0, "u", "bF">>
\* a nested forEach reports how many elements it saw
ActLog(a, c) == IF c[1] = "nest" THEN Num(Len(SelectSeq(a, LAMBDA v : v # HOLE))) ELSE "-"

\* The state of an iteration: a array, i index (1-based), k calls made, log, acc (reduce), out (map, filter), res
RECURSIVE Go(_, _, _, _, _, _)
Finish(m, st) == [st EXCEPT !.res =
  CASE m \in {"map", "filter"} -> <<"a">> \o Dump(st.out)
    [] m \in {"reduce", "reduceRight"} -> <<"v", IF st.acc = <<>> THEN "u" ELSE st.acc[1]>>
    [] m = "some" -> <<"v", "bF">>
    [] m = "every" -> <<"v", "bT">>
    [] m = "findIndex" -> <<"v", "n-1">>
    [] OTHER -> <<"v", "u">>]
Go(m, np, this, script, n0, st) ==
  LET a == st.a
      rev == m = "reduceRight"
      red == m \in {"reduce", "reduceRight"}
      lim == IF Live(m) THEN Len(a) ELSE n0
      over == IF rev THEN st.i < 1 ELSE st.i > lim
      nx == IF rev THEN st.i - 1 ELSE st.i + 1
  IN IF over THEN Finish(m, st)
     ELSE IF st.i > Len(a) \/ (st.i <= Len(a) /\ a[st.i] = HOLE)
     THEN Go(m, np, this, script, n0, [st EXCEPT !.i = nx, !.out = IF m = "map" THEN Append(@, HOLE) ELSE @])
     ELSE IF red /\ st.acc = <<>>
     THEN Go(m, np, this, script, n0, [st EXCEPT !.i = nx, !.acc = <<a[st.i]>>])
     ELSE
       LET v == a[st.i]
           k == st.k + 1
           c == IF k <= Len(script) THEN script[k] ELSE NoAct
           all == (IF red THEN <<st.acc[1]>> ELSE <<>>) \o <<v, Num(st.i - 1), "A">>
           shown == SubSeq(all, 1, IF np < Len(all) THEN np ELSE Len(all))
           entry == shown \o <<ActLog(a, c)>> \o (IF red THEN <<>> ELSE <<IF this THEN "n7" ELSE "u">>)
           s1 == [st EXCEPT !.a = Act(a, c), !.k = k, !.log = Append(@, entry), !.i = nx]
           r == c[4]
       IN IF r = "throw" THEN [s1 EXCEPT !.res = <<"thrown">>]
          ELSE IF m = "find" /\ True(r) THEN [s1 EXCEPT !.res = <<"v", v>>]
          ELSE IF m = "findIndex" /\ True(r) THEN [s1 EXCEPT !.res = <<"v", Num(st.i - 1)>>]
          ELSE IF m = "some" /\ True(r) THEN [s1 EXCEPT !.res = <<"v", "bT">>]
          ELSE IF m = "every" /\ ~True(r) THEN [s1 EXCEPT !.res = <<"v", "bF">>]
          ELSE Go(m, np, this, script, n0,
                  [s1 EXCEPT !.acc = IF red THEN <<r>> ELSE @,
                             !.out = CASE m = "map" -> Append(@, r)
                                       [] m = "filter" -> IF True(r) THEN Append(@, v) ELSE @
                                       [] OTHER -> @])
Iter(s, e) ==
  LET m == e.a[1]
      init == e.a[3]
      st0 == [a |-> s.a, i |-> IF m = "reduceRight" THEN Len(s.a) ELSE 1, k |-> 0, log |-> <<>>,
              acc |-> init, out |-> <<>>, res |-> <<>>]
      st == Go(m, e.a[2], e.a[4], e.a[5], Len(s.a), st0)
  IN {[s |-> [a |-> st.a], r |-> <<st.log, st.res, Dump(st.a)>>]}

\* ---- sort.  The orders, as positions in tables of the strings used.
ByteOrder == <<"s", "s10", "s9", "sA", "sA9", "sAB", "sB", "sZ", "sa", "sa10", "sa9", "sab", "sb", "sz", "s{">>
FoldRank == [x \in {ByteOrder[i] : i \in 1..Len(ByteOrder)} |->     \* letters compared as lower case
  CASE x = "s" -> 1 [] x = "s10" -> 2 [] x = "s9" -> 3 [] x \in {"sA", "sa"} -> 4 [] x = "sa10" -> 5 [] x \in {"sA9", "sa9"} -> 6
    [] x \in {"sAB", "sab"} -> 7 [] x \in {"sB", "sb"} -> 8 [] x \in {"sZ", "sz"} -> 9 [] x = "s{" -> 10]
DictRank == [x \in {ByteOrder[i] : i \in 1..Len(ByteOrder)} |->     \* numbers by value, case only to break ties
  CASE x = "s" -> 1 [] x = "s9" -> 2 [] x = "s10" -> 3 [] x = "sA" -> 4 [] x = "sa" -> 5 [] x = "sA9" -> 6 [] x = "sa9" -> 7 [] x = "sa10" -> 8
    [] x = "sAB" -> 9 [] x = "sab" -> 10 [] x = "sB" -> 11 [] x = "sb" -> 12 [] x = "sZ" -> 13 [] x = "sz" -> 14 [] x = "s{" -> 15]
ByteRank == [x \in DOMAIN FoldRank |-> CHOOSE i \in 1..Len(ByteOrder) : ByteOrder[i] = x]
NumRank == TLCEval([x \in {Num(i) : i \in -60..60} |-> CHOOSE i \in -60..60 : x = Num(i)])
Rank(mode, v) == IF v \in DOMAIN NumRank THEN (IF mode \in {"desc", "rev", "fracrev"} THEN -NumRank[v] ELSE NumRank[v])
                 ELSE CASE mode = "nocase" -> FoldRank[v] [] mode = "dict" -> DictRank[v] [] mode = "desc" -> -ByteRank[v]
                        [] OTHER -> ByteRank[v]
Present(a) == SelectSeq(a, LAMBDA v : v # HOLE)
Count(a, v) == Len(SelectSeq(a, LAMBDA x : x = v))
SamePerm(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
\* e.a = <<mode, unique, at>>: comparator modes num, rev, frac, fracrev; at > 0: the at-th comparison throws or tries to
\* change the array (e.a[4]); what is observed (e.r) must be a permitted permutation
Sort(s, e) ==
  LET mode == e.a[1]
      uniq == e.a[2]
      acts == e.a[4]
      p == Present(s.a)
      nh == Len(s.a) - Len(p)
      o == IF Len(e.r) = 3 THEN e.r[3] ELSE <<>>           \* the array afterwards
      np == Len(o) - nh
      last == mode = "desc"                       \* holes count as lowest
      op == IF np < 0 THEN o ELSE IF last THEN SubSeq(o, 1, np) ELSE SubSeq(o, nh + 1, Len(o))
      holesLast == \A i \in 1..Len(o) : (IF last THEN i > np ELSE i <= nh) => o[i] = "u"
      sorted == \A i \in 1..(np - 1) : IF uniq THEN Rank(mode, op[i]) < Rank(mode, op[i + 1]) ELSE Rank(mode, op[i]) <= Rank(mode, op[i + 1])
      members == \A i \in 1..Len(op) : Count(p, op[i]) >= 1
      perm == IF uniq THEN members /\ {Rank(mode, p[i]) : i \in 1..Len(p)} = {Rank(mode, op[i]) : i \in 1..Len(op)} ELSE SamePerm(p, op)
      Ok == [s |-> [a |-> IF last THEN op \o [i \in 1..nh |-> HOLE] ELSE [i \in 1..nh |-> HOLE] \o op], r |-> e.r]
      calls == IF Len(e.r) = 3 THEN e.r[1] ELSE <<>>
      reached == e.a[3] > 0 /\ e.a[3] <= Len(calls)
      pairsOk == \A i \in 1..Len(calls) : Len(calls[i]) = 2 => Count(p, calls[i][1]) >= 1 /\ Count(p, calls[i][2]) >= 1
      enough == mode \in {"num", "rev", "frac", "fracrev", "str"} /\ Len(p) > 1 => Len(calls) >= Len(p) - 1
  IN IF Len(e.r) # 3 \/ ~pairsOk THEN {}
     ELSE IF acts = "throw" /\ reached
     THEN IF /\ e.r[2] = <<"thrown">>
             /\ IF uniq THEN /\ {o[i] : i \in 1..Len(o)} = {s.a[i] : i \in 1..Len(s.a)}      \* nothing but duplicates goes
                             /\ \A i \in 1..Len(o) : Count(o, o[i]) <= Count(s.a, o[i])
                ELSE SamePerm(Dump(s.a), o)
             /\ e.a[3] = Len(calls)
          THEN \* where the holes are now is not observable: any arrangement that shows o
               {[s |-> [a |-> IF nh = 0 THEN o ELSE [i \in 1..Len(o) |-> IF o[i] = "u" THEN HOLE ELSE o[i]]], r |-> e.r]}
          ELSE {}
     ELSE IF /\ e.r[2] = IF acts \in {"-", "throw"} \/ ~reached THEN <<"A">> ELSE <<"A", "refused">>
             /\ holesLast /\ sorted /\ perm /\ enough
          THEN {Ok} ELSE {}

Do(s, e) ==
  CASE e.op = "lit" -> {[s |-> [a |-> e.a[1]], r |-> <<<<>>, <<"v", "u">>, Dump(e.a[1])>>]}
    [] e.op = "mut" -> LET a == Act(s.a, e.a[1]) IN {[s |-> [a |-> a], r |-> <<<<>>, <<"v", "u">>, Dump(a)>>]}
    [] e.op = "iter" -> Iter(s, e)
    [] e.op = "sort" -> Sort(s, e)
=============================================================================
