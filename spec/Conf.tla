--------------------------------- MODULE Conf ---------------------------------
(* The options of interpreters and how they change.  Every option has a       *)
(* declaration: the kind of its values and when it may be set.  A change names *)
(* several options at once and is made as a whole or not at all.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Interps == <<"M", "A", "B", "S", "N">>   \* the main one, children, a safe child, one whose conf is disabled
Logs == <<"bug", "assert", "debug", "trace", "test", "info", "warn", "error", "parse">>
Traces9 == <<"funcs", "cmds", "new", "return", "args", "notrunc", "noparent", "full", "before">>
TypeChks == <<"noreturn", "noundef", "nowith", "builtins", "funcdecl">>

\* kind, when: "any" | "init" (only at creation) | "ro" (never) | "lock" (not by or on a safe interpreter)
D(k, w) == [kind |-> k, when |-> w]
Table ==
  [asserts |-> D("bool", "any"), assertMode |-> D("enum", "any"), busyInterval |-> D("int", "any"),
   confFile |-> D("strkey", "init"), interactive |-> D("bool", "init"), hasOpenSSL |-> D("bool", "init"),
   historyFile |-> D("strkey", "lock"), isSafe |-> D("bool", "init"), lockTimeout |-> D("int", "any"),
   log |-> D("bitset", "any"), maxDepth |-> D("int", "lock"), maxDumpStack |-> D("uint", "lock"),
   maxDumpArgs |-> D("uint", "lock"), maxArrayList |-> D("uint", "lock"), maxIncDepth |-> D("int", "lock"),
   maxInterpDepth |-> D("int", "lock"), maxUserObjs |-> D("int", "lock"), maxOpCnt |-> D("int", "init"),
   memLeakCnt |-> D("int", "init"), name |-> D("strkey", "any"), noAutoLoad |-> D("bool", "lock"),
   noConfig |-> D("bool", "init"), noError |-> D("bool", "lock"), noEval |-> D("bool", "init"),
   noInput |-> D("bool", "lock"), noLoad |-> D("bool", "lock"), noNetwork |-> D("bool", "lock"),
   noSubInterps |-> D("bool", "lock"), onComplete |-> D("func", "any"), onEval |-> D("func", "any"),
   onExit |-> D("func", "init"), pkgDirs |-> D("array", "any"), retValue |-> D("value", "ro"),
   safeMode |-> D("enum2", "init"), safeReadDirs |-> D("array", "init"), safeWriteDirs |-> D("array", "init"),
   safeExecPattern |-> D("strkey", "init"), scriptStr |-> D("strkey", "init"), scriptFile |-> D("string", "any"),
   stdinStr |-> D("string", "any"), subthread |-> D("bool", "init"), traceCall |-> D("bitset9", "any"),
   typeCheck |-> D("bitset5", "any"), typeWarnMax |-> D("int", "any"), udata |-> D("obj", "any")]
Sub ==
  [logOpts |-> [time |-> D("bool", "any"), date |-> D("bool", "any"), full |-> D("bool", "any"), ftail |-> D("bool", "any"),
                before |-> D("bool", "any"), isUTC |-> D("bool", "any"), timeFmt |-> D("strkey", "any"),
                file |-> D("bool", "any"), func |-> D("bool", "any"), capture |-> D("bool", "any")],
   subOpts |-> [blacklist |-> D("strkey", "init"), mutexUnlock |-> D("bool", "init"), noFuncString |-> D("bool", "init"),
                noRegex |-> D("bool", "init"), istty |-> D("bool", "ro"), nofreeze |-> D("bool", "any"),
                logColNums |-> D("bool", "any"), logAllowDups |-> D("bool", "any"), noReadline |-> D("bool", "any"),
                outUndef |-> D("bool", "any"), prompt |-> D("strkey", "any"), prompt2 |-> D("strkey", "any"),
                traceAccess |-> D("bool", "any"), compat |-> D("bool", "any"), noproto |-> D("bool", "any"),
                dblPrec |-> D("int", "any")],
   debugOpts |-> [doContinue |-> D("bool", "any"), forceBreak |-> D("bool", "any"), includeOnce |-> D("bool", "any"),
                  includeTrace |-> D("bool", "any"), minLevel |-> D("int", "any"), pkgTrace |-> D("bool", "any")]]
Groups == DOMAIN Sub
\* A path is <<option>> or <<group, option>>.
Paths == {<<o>> : o \in DOMAIN Table} \cup UNION {{<<g, o>> : o \in DOMAIN Sub[g]} : g \in Groups}
Known(p) == p \in Paths
Decl(p) == IF Len(p) = 1 THEN Table[p[1]] ELSE Sub[p[1]][p[2]]

\* A value is [t, s, l]: its type, its text and, for sets of names, the names (after "+" or "-").
\* The value held by an option is [s, l]: text, or the names set in order.
Ints == {"0", "1", "5", "20", "100", "150", "1000", "70000", "-3", "2147483647", "-2147483648"}
UInts == {"0", "1", "5", "20", "100", "150", "1000", "70000", "2147483647", "3000000000", "4294967295"}
Names(k) == CASE k = "bitset" -> Logs [] k = "bitset9" -> Traces9 [] k = "bitset5" -> TypeChks
              [] k = "enum" -> <<"log", "puts", "throw">> [] OTHER -> <<"none", "read", "write", "writeRead", "lockdown">>
Rng(q) == {q[i] : i \in 1..Len(q)}
Bits(k) == k \in {"bitset", "bitset9", "bitset5"}
No == [ok |-> FALSE, v |-> [s |-> "", l |-> <<>>]]
Yes(s) == [ok |-> TRUE, v |-> [s |-> s, l |-> <<>>]]
InOrder(q, set) == SelectSeq(q, LAMBDA n : n \in set)
RECURSIVE Flip(_, _, _)
Flip(l, i, set) == IF i > Len(l) THEN set
                   ELSE Flip(l, i + 2, IF l[i] = "+" THEN set \cup {l[i + 1]} ELSE set \ {l[i + 1]})
SetBits(k, cur, v) ==
  LET n == Rng(Names(k))
      bad == \/ \E i \in 1..Len(v.l) : i % 2 = 0 /\ v.l[i] \notin n
             \/ \E i \in 1..Len(v.l) : i % 2 = 1 /\ v.l[i] \notin {"+", "-"}
             \/ v.t = "bstr" /\ v.s = "=" /\ \E i \in 1..Len(v.l) : i % 2 = 1 /\ v.l[i] = "-"
  IN IF v.t \notin {"bstr", "barr", "bobj"} \/ bad THEN No
     ELSE [ok |-> TRUE, v |-> [s |-> "", l |-> InOrder(Names(k), Flip(v.l, 1, IF v.s = "=" THEN {} ELSE Rng(cur.l)))]]

\* What an option holds after it is set to v; p says for which one (functions must have its parameters).
SetTo(p, k, cur, v) ==
  CASE k = "bool" -> IF v.t = "bool" THEN Yes(v.s) ELSE No
    [] k = "int" -> IF v.t = "num" /\ v.s \in Ints THEN Yes(v.s) ELSE No
    [] k = "uint" -> IF v.t = "num" /\ v.s \in UInts THEN Yes(v.s) ELSE No
    [] k \in {"strkey", "string"} -> IF v.t \in {"str", "null"} THEN Yes(v.s) ELSE No
    [] k \in {"enum", "enum2"} -> IF v.t = "str" /\ \E i \in 1..Len(Names(k)) : v.s = "\"" \o Names(k)[i] \o "\"" THEN Yes(v.s) ELSE No
    [] Bits(k) -> SetBits(k, cur, v)
    [] k = "array" -> IF v.t \in {"arr", "null"} THEN Yes(v.s) ELSE No
    [] k = "obj" -> IF v.t \in {"obj", "null"} THEN Yes(v.s) ELSE No
    [] k = "func" -> IF v.t = "null" \/ (v.t = "fun" /\ v.l = p) THEN Yes(v.s) ELSE No
    [] OTHER -> Yes(v.s)

\* ----- state: the interpreters there are and what their options hold -------------------------------------
On(st, i) == i \in DOMAIN st.at
Safe(st, i) == st.at[i][<<"isSafe">>].s = "true"
Zero(k) == [s |-> CASE k = "bool" -> "false" [] k \in {"int", "uint"} -> "0" [] OTHER -> "null", l |-> <<>>]
May(st, i, p, update, safe) ==
  /\ Known(p) /\ Decl(p).when # "ro"
  /\ update => Decl(p).when # "init" /\ (safe => Decl(p).when # "lock")

\* One option of a change.  A group set to null has its options reset, except those that may not be.
Apply(st, i, o, it, update, safe) ==   \* o: what the options hold; result: [ok, o]
  LET p == it.p v == it.v IN
  IF Len(p) = 1 /\ p[1] \in Groups
  THEN IF v.t # "null" THEN [ok |-> FALSE, o |-> o]
       ELSE [ok |-> TRUE, o |-> [q \in DOMAIN o |-> IF Len(q) = 2 /\ q[1] = p[1] /\ May(st, i, q, update, safe) THEN Zero(Decl(q).kind) ELSE o[q]]]
  ELSE IF ~May(st, i, p, update, safe) THEN [ok |-> FALSE, o |-> o]
  ELSE LET z == SetTo(p, Decl(p).kind, o[p], v) IN
       IF ~z.ok THEN [ok |-> FALSE, o |-> o] ELSE [ok |-> TRUE, o |-> [o EXCEPT ![p] = z.v]]
RECURSIVE All(_, _, _, _, _, _, _)
All(st, i, o, items, k, update, safe) ==
  IF k > Len(items) THEN [ok |-> TRUE, o |-> o]
  ELSE LET z == Apply(st, i, o, items[k], update, safe) IN
       IF ~z.ok THEN z ELSE All(st, i, z.o, items, k + 1, update, safe)

\* asserts is a shorthand: turning it on has asserts logged and thrown, turning it off has them printed.
Asserts(o) == IF o[<<"asserts">>].s = "true"
  THEN [o EXCEPT ![<<"log">>] = [s |-> "", l |-> InOrder(Logs, Rng(@.l) \cup {"assert"})], ![<<"assertMode">>] = [s |-> "\"throw\"", l |-> <<>>]]
  ELSE [o EXCEPT ![<<"assertMode">>] = [s |-> "\"puts\"", l |-> <<>>]]

Change(st, i, items) == LET z == All(st, i, st.at[i], items, 1, TRUE, Safe(st, i)) IN
  IF ~z.ok THEN z
  ELSE IF z.o[<<"asserts">>] # st.at[i][<<"asserts">>] THEN [ok |-> TRUE, o |-> Asserts(z.o)] ELSE z

Base(i) == IF i = "S" THEN "safe" ELSE "plain"
Given(i) == IF i = "S" THEN <<[p |-> <<"isSafe">>, v |-> [t |-> "bool", s |-> "true", l |-> <<>>]]>>
            ELSE IF i = "N" THEN <<[p |-> <<"noConfig">>, v |-> [t |-> "bool", s |-> "true", l |-> <<>>]]>> ELSE <<>>
Inherited == {<<"pkgDirs">>, <<"maxInterpDepth">>}
Start(st, i) == [p \in Paths |-> IF p \in Inherited THEN st.at["M"][p] ELSE st.fresh[Base(i)][p]]
New(st, i, items) == LET z == All(st, i, Start(st, i), Given(i) \o items, 1, FALSE, FALSE) IN
  IF ~z.ok THEN z ELSE [ok |-> TRUE, o |-> IF z.o[<<"asserts">>].s = "true" THEN Asserts(z.o) ELSE z.o]

\* ----- operations; a result is [o, v, l]: the outcome, a value read and what changed ---------------------
Diff(st, t) == LET ch == UNION {{<<i, q, t.at[i][q].s, t.at[i][q].l>> :
                                 q \in {q \in DOMAIN t.at[i] \ {<<"retValue">>} : ~On(st, i) \/ st.at[i][q] # t.at[i][q]}} : i \in DOMAIN t.at}
               IN ch
Res(o, v, l, ch) == [o |-> o, v |-> v, l |-> l, ch |-> ch]
Put(st, i, o) == [st EXCEPT !.at = [j \in DOMAIN @ \cup {i} |-> IF j = i THEN o ELSE @[j]]]

Do(st, e) ==
  LET a == e.a i == a[1] IN
  CASE e.op = "new" ->     \* <<i, items>>
       LET z == New(st, i, a[2]) ok == z.ok /\ ~On(st, i) /\ st.at["M"][<<"noSubInterps">>].s # "true" IN
       IF ok THEN LET t == Put(st, i, z.o) IN {[s |-> t, r |-> Res("ok", "", <<>>, Diff(st, t))]}
       ELSE {[s |-> st, r |-> Res("e", "", <<>>, {})]}
    [] e.op = "set" ->     \* <<i, items, from>>: from inside, or from the parent
       LET z == Change(st, i, a[2]) ok == On(st, i) /\ z.ok /\ ~(a[3] = "in" /\ st.at[i][<<"noConfig">>].s = "true") IN
       IF ok THEN LET t == Put(st, i, z.o) IN {[s |-> t, r |-> Res("ok", "", <<>>, Diff(st, t))]}
       ELSE {[s |-> st, r |-> Res("e", "", <<>>, {})]}
    [] e.op = "get" ->     \* <<i, path, from>>
       IF On(st, i) /\ Known(a[2]) THEN {[s |-> st, r |-> Res("ok", st.at[i][a[2]].s, st.at[i][a[2]].l, {})]}
       ELSE {[s |-> st, r |-> Res("e", "", <<>>, {})]}

\* Every interpreter has all options; the ones that are sets hold only names there are, in order.
Inv(st) == \A i \in DOMAIN st.at : /\ DOMAIN st.at[i] = Paths
                                   /\ \A p \in Paths : Bits(Decl(p).kind) => st.at[i][p].l = InOrder(Names(Decl(p).kind), Rng(st.at[i][p].l))
                                   /\ (i = "S") = Safe(st, i)
\* What no step may do: change an option that may not be changed, or another interpreter's.
StepInv(st, e, n) ==
  /\ \A i \in DOMAIN st.at : On(n, i) /\ (i # e.a[1] => n.at[i] = st.at[i])
  /\ \A i \in DOMAIN st.at : \A p \in Paths :
       st.at[i][p] # n.at[i][p] => /\ e.op = "set"
                                    /\ (Decl(p).when = "any" \/ (Decl(p).when = "lock" /\ ~Safe(st, i)))
=============================================================================
