------------------------------- MODULE OpsMC -------------------------------
(* Every operator applied to every pair of operands from a small set, every assignment form on every kind of place, and
   (Big) every pair of nested binary operators.  Law of every step: each operand is evaluated at most once, left to right. *)
EXTENDS Ops
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
Canon(st) == st
Env1 == <<Num(1), Str("5"), <<"z">>, Num(2), Str("x"), Num(10), Num(20), Num(30)>>
Lit(v) == <<"lit", v>>
T(k, e) == <<"t", k, e>>
Vals == {Num(3), Num(0), Num(-2), Str("5"), Str(""), Str("x"), Boo(TRUE), <<"z">>, UNDEF}
Leaf(k) == {T(k, Lit(v)) : v \in Vals} \cup {<<"var", 1>>, <<"prop", 4>>, <<"acc">>, <<"setv", T(k, Lit(Num(7)))>>, <<"throw">>}
Few(k) == {T(k, Lit(v)) : v \in {Num(3), Str(""), Str("5"), <<"z">>}} \cup {<<"var", 1>>, <<"setv", T(k, Lit(Num(7)))>>}
Places == {<<"var", 1>>, <<"var", 2>>, <<"prop", 4>>, <<"acc">>, <<"cprop", T(0, Lit(Str("p")))>>, <<"idx", T(0, Lit(Num(0)))>>, <<"idx", <<"inc", 1, FALSE, <<"var", 1>>>>>>}
BinOps == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "==", "!=", "===", "!==", "<", ">", "<=", ">="}
AsgOps == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>"}
Bins(x, y, ops) == {<<"bin", k, p, q>> : k \in ops, p \in x, q \in y} \cup {<<"and", p, q>> : p \in x, q \in y} \cup {<<"or", p, q>> : p \in x, q \in y}
Simple == Bins(Leaf(1), Leaf(2), BinOps)
          \cup {<<"un", k, p>> : k \in {"-", "+", "!", "~", "typeof", "void"}, p \in Leaf(1)}
          \cup {<<"if", p, q, T(3, Lit(Num(9)))>> : p \in Leaf(1), q \in Leaf(2)}
          \cup {<<"asg", l, q>> : l \in Places, q \in Leaf(2)}
          \cup {<<"op", k, l, q>> : k \in AsgOps, l \in Places, q \in Leaf(2)}
          \cup {<<"inc", d, pre, l>> : d \in {1, -1}, pre \in BOOLEAN, l \in Places}
          \cup {<<"pick", i, <<p, q, r>>>> : i \in 1..3, p \in {<<"var", 1>>, T(1, Lit(Num(3))), <<"acc">>}, q \in Leaf(2), r \in {<<"var", 1>>, <<"prop", 4>>, T(3, Lit(Num(4)))}}
Nest == LET o == {"+", "-", "*", "&", "|", "<", "=="} IN
        {<<"bin", k, p, q>> : k \in o, p \in Bins(Few(1), Few(2), o), q \in Few(3)}
        \cup {<<"bin", k, p, q>> : k \in o, p \in Few(1), q \in Bins(Few(2), Few(3), o)}
        \cup {<<"and", p, q>> : p \in Bins(Few(1), Few(2), {"<"}), q \in Few(3)}
        \cup {<<"asg", l, <<"op", k, m, q>>>> : l, m \in Places, k \in {"+", "*"}, q \in Few(2)}
Op(e) == [op |-> "ev", a |-> <<Env1, e>>]
SmallOps(st) == {Op(e) : e \in IF Big THEN Simple \cup Nest ELSE Simple}
I0 == {Init0}
\* each label at most once and in increasing order (labels are numbered from left to right)
LabelVal(x) == CASE x = "n0" -> 0 [] x = "n1" -> 1 [] x = "n2" -> 2 [] x = "n3" -> 3 [] OTHER -> 99
Order(st, e, t) == LET f == Eval(Start(e.a[1]), e.a[2])
                       g == SelectSeq(f.log, LAMBDA x : LabelVal(x) < 9)
                   IN \A i \in 1..(Len(g) - 1) : LabelVal(g[i]) < LabelVal(g[i + 1])
INSTANCE Explore WITH InitSet <- I0, StepInv <- Order
=============================================================================
