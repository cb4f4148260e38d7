--------------------------------- MODULE Subs ---------------------------------
(* A tree of interpreters.  Each has variables x, y, z holding data, two places for children, aliases (names that call a
   function of the interpreter that bound them), a held alias, an option and a property put on a prototype.
   Data is a tree: [k |-> "n", n], [k |-> "s", s], [k |-> "b", b], [k |-> "z"] (null), [k |-> "a", e] (array), [k |-> "o", m] (object, sorted).
   An operation names the interpreter that performs it by the path of child numbers from the root.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Num(n) == [k |-> "n", n |-> n]
Arr(q) == [k |-> "a", e |-> q]
Nul == [k |-> "z"]
NoAl == [on |-> FALSE, own |-> 0, f |-> "", args |-> <<>>, id |-> 0]
Names == {"A0", "A1", "up", "S0"}
Fresh == [x |-> Num(0), y |-> Num(0), z |-> Num(0), kid |-> <<0, 0>>, al |-> [a \in Names |-> NoAl], held |-> 0, conf |-> 200, pro |-> 0]
S0 == [it |-> <<[Fresh EXCEPT !.kid = <<0, 0>>]>>, ser |-> 0]
V(t) == <<"v", t>>
E == <<"e">>
U == <<"u">>
\* what "mutate in place" does to data
Mut(t, n) == IF t.k = "a" THEN Arr(Append(t.e, Num(n)))
             ELSE IF t.k = "o" THEN IF \E i \in 1..Len(t.m) : t.m[i].key = "q" THEN [t EXCEPT !.m = [i \in 1..Len(t.m) |-> IF t.m[i].key = "q" THEN [key |-> "q", val |-> Num(n)] ELSE t.m[i]]]
                                    ELSE [t EXCEPT !.m = SelectSeq(t.m, LAMBDA p : p.key \in {"a", "b"}) \o <<[key |-> "q", val |-> Num(n)]>> \o SelectSeq(t.m, LAMBDA p : p.key \notin {"a", "b"})]
             ELSE t
R(s, r) == [s |-> s, r |-> r]
Set(s, i, v, t) == [s EXCEPT !.it[i][v] = t]
Get(s, i, v) == s.it[i][v]
Bind(s, c, n, own, f, args) == [s EXCEPT !.ser = @ + 1, !.it[c].al[n] = [on |-> TRUE, own |-> own, f |-> f, args |-> args, id |-> s.ser + 1]]
Unbind(s, c, n) == [s EXCEPT !.it[c].al[n] = NoAl]
\* function f of interpreter i applied to args, while the interpreters of act run something
RECURSIVE F(_, _, _, _, _)
A(s, i, n, args, act) == LET a == s.it[i].al[n] IN IF ~a.on THEN R(s, E) ELSE F(s, a.own, a.f, a.args \o args, act)
F(s, i, f, args, act0) ==
  LET act == act0 \cup {i}
      h == s.it[i].kid[1]
      q == [j \in 1..Len(args) |-> IF j = Len(args) THEN Mut(args[j], 9) ELSE args[j]]
      after == IF h = 0 THEN R(s, E) ELSE F(s, h, "fapp", args, act)
      up == A(s, i, "up", args, act)
  IN CASE f = "fset" -> R(Set(s, i, "x", Arr(args)), V(Get(s, i, "y")))
     [] f = "fapp" -> R(Set(s, i, "y", IF Get(s, i, "y").k = "a" THEN Arr(Get(s, i, "y").e \o args) ELSE Arr(args)), V(Num(Len(args))))
     [] f = "fthr" -> R(Set(s, i, "z", Arr(args)), E)
     [] f = "fmut" -> R(Set(s, i, "z", Arr(q)), V(Arr(q)))
     [] f = "fup" -> R(up.s, IF up.r[1] = "v" THEN V(Arr(<<up.r[2]>>)) ELSE up.r)
     [] f = "ftry" -> R(up.s, IF up.r[1] = "v" THEN up.r ELSE V(Num(99)))
     [] f = "fun" -> IF h = 0 THEN R(s, E) ELSE R(Unbind(s, h, "up"), V(Num(1)))
     [] f = "fre" -> IF h = 0 THEN R(s, E) ELSE R(Bind(s, h, "up", i, "fapp", <<Num(7)>>), V(Num(2)))
     [] f = "fcall" -> IF after.r = E THEN after ELSE R(after.s, V(Arr(<<after.r[2]>>)))
     [] f = "fcalln" -> IF h = 0 THEN R(s, E) ELSE R(F(s, h, "fapp", args, act).s, V(Num(3)))
     [] f = "fkill" -> R([s EXCEPT !.it[i].kid[1] = 0], V(Num(4)))
     [] f = "fval" -> IF h = 0 \/ h \notin act THEN R(s, E) ELSE R(s, V(Get(s, h, "y")))
Funs == {"fset", "fapp", "fthr", "fmut", "fup", "ftry", "fun", "fre", "fcall", "fcalln", "fkill", "fval"}
\* arguments: literals, or the values of variables of the interpreter performing the operation
Arg(s, i, a) == [j \in 1..Len(a) |-> IF a[j].k = "v" THEN Get(s, i, a[j].v) ELSE a[j]]
RECURSIVE Walk(_, _, _)
Walk(s, i, p) == IF p = <<>> THEN <<i>> ELSE IF s.it[i].kid[p[1]] = 0 THEN <<>> ELSE LET w == Walk(s, s.it[i].kid[p[1]], Tail(p)) IN IF w = <<>> THEN <<>> ELSE <<i>> \o w
Op(s, i, o, a, act) ==
  LET h == s.it[i].kid[a[1]]       \* (operations on a child: the first argument says which)
  IN CASE o = "new" -> R([it |-> Append([s.it EXCEPT ![i].kid[a[1]] = Len(s.it) + 1], Fresh), ser |-> s.ser], V(Num(1)))
     [] o = "kill" -> R([s EXCEPT !.it[i].kid[a[1]] = 0], V(Num(1)))
     [] o = "set" -> R(Set(s, i, a[1], a[2]), V(Num(1)))
     [] o = "mut" -> R(Set(s, i, a[1], Mut(Get(s, i, a[1]), a[2])), V(Num(1)))
     [] o = "dump" -> R(s, V(Arr(<<Get(s, i, "x"), Get(s, i, "y"), Get(s, i, "z"), Num(s.it[i].conf), Num(s.it[i].pro)>>)))
     [] o = "conf" -> R([s EXCEPT !.it[i].conf = a[1]], V(Num(1)))
     [] o = "proto" -> R([s EXCEPT !.it[i].pro = a[1]], V(Num(1)))
     [] o = "self" -> R(Bind(s, i, "S0", i, a[1], a[2]), V(Num(1)))
     [] o = "unself" -> R(Unbind(s, i, "S0"), V(Num(1)))
     [] o = "acall" -> LET x == A(s, i, a[1], Arg(s, i, a[2]), act) IN x
     [] o = "acallto" -> LET x == A(s, i, a[1], Arg(s, i, a[3]), act) IN IF x.r[1] = "v" THEN R(Set(x.s, i, a[2], x.r[2]), V(Num(1))) ELSE x
     [] o = "hold" -> LET l == s.it[i].al[a[1]] IN IF l.on THEN R([s EXCEPT !.it[i].held = l.id], V(Num(1))) ELSE R(s, E)
     [] o = "hcall" -> LET n == {m \in Names : s.it[i].al[m].on /\ s.it[i].al[m].id = s.it[i].held}
                       IN IF n = {} THEN R(s, E) ELSE A(s, i, CHOOSE m \in n : TRUE, Arg(s, i, a[1]), act)
     [] h = 0 -> R(s, E)
     [] o = "pull" -> R(Set(s, i, a[2], Get(s, h, a[3])), V(Num(1)))
     [] o = "ev" -> R(Set(s, h, a[2], a[3]), IF a[5] THEN E ELSE V(Get(Set(s, h, a[2], a[3]), h, a[4])))
     [] o = "call" -> LET x == F(s, h, a[2], Arg(s, i, a[3]), act) IN IF a[4] THEN x ELSE R(x.s, U)
     [] o = "callto" -> LET x == F(s, h, a[3], Arg(s, i, a[4]), act) IN IF x.r[1] = "v" THEN R(Set(x.s, i, a[2], x.r[2]), V(Num(1))) ELSE x
     [] o = "kconf" -> IF a[2] = 0 THEN R(s, V(Num(s.it[h].conf))) ELSE R([s EXCEPT !.it[h].conf = a[2]], V(Num(1)))
     [] o = "alias" -> R(Bind(s, h, a[2], i, a[3], a[4]), V(Num(1)))
     [] o = "badalias" -> R(s, E)
     [] o = "unalias" -> R(Unbind(s, h, a[2]), V(Num(1)))
     [] o = "names" -> R(s, V(Arr(SelectSeq(<<[k |-> "s", s |-> "A0"], [k |-> "s", s |-> "A1"], [k |-> "s", s |-> "S0"], [k |-> "s", s |-> "up"]>>, LAMBDA t : s.it[h].al[t.s].on))))
     [] o = "bound" -> LET l == s.it[h].al[a[2]] IN R(s, IF ~l.on \/ l.args = <<>> THEN V(Nul) ELSE V(Arr(l.args)))
Do(s, e) ==
  LET w == Walk(s, 1, e.a[1])
      d == IF w = <<>> THEN R(s, <<"p">>) ELSE Op(s, w[Len(w)], e.op, Tail(e.a), {w[j] : j \in 1..Len(w)})
  IN {d}
\* interpreters form a tree, and an alias calls into its own interpreter or the one above
Inv(s) == /\ \A i \in 1..Len(s.it) : \A c \in 1..2 : LET k == s.it[i].kid[c] IN k = 0 \/ (k > i /\ k <= Len(s.it))
          /\ \A i, j \in 1..Len(s.it) : \A c, d \in 1..2 : s.it[i].kid[c] # 0 /\ s.it[i].kid[c] = s.it[j].kid[d] => i = j /\ c = d
          /\ \A i \in 1..Len(s.it) : \A n \in Names : s.it[i].al[n].on => s.it[i].al[n].own <= i
Live(s) == LET RECURSIVE L(_)
               L(i) == {i} \cup UNION {IF s.it[i].kid[c] = 0 THEN {} ELSE L(s.it[i].kid[c]) : c \in 1..2}
           IN L(1)
\* operations that neither call nor address a child change their own interpreter only; calls of plain functions only the one called
StepInv(s, e, t) ==
  LET w == Walk(s, 1, e.a[1])
      same(X) == \A i \in 1..Len(s.it) : i \in X \/ t.it[i] = s.it[i]
      i == w[Len(w)]
  IN IF w = <<>> THEN s = t
     ELSE CASE e.op \in {"set", "mut", "conf", "proto", "self", "unself", "hold", "pull", "kill", "new"} -> same({i})
            [] e.op \in {"dump", "names", "bound", "badalias"} -> s = t
            [] e.op \in {"ev", "alias", "unalias", "kconf"} -> same({s.it[i].kid[e.a[2]]})
            [] e.op = "callto" /\ e.a[4] \in {"fset", "fapp", "fthr", "fmut"} -> same({i, s.it[i].kid[e.a[2]]})
            [] e.op = "call" /\ e.a[3] \in {"fset", "fapp", "fthr", "fmut"} -> same({s.it[i].kid[e.a[2]]})
            [] e.op = "acall" /\ s.it[i].al[e.a[2]].f \in {"fset", "fapp", "fthr", "fmut"} -> same({s.it[i].al[e.a[2]].own})
            [] OTHER -> TRUE
=============================================================================
