-------------------------------- MODULE SuiteMC --------------------------------
(* every sequence of writing, editing, running and updating up to MaxDepth operations over two files with every statement *)
EXTENDS Suite, TLC
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {S0}
T(k, x, y) == [k |-> k, x |-> x, y |-> y]
P == T("puts", "a", "")
Bodies == {<<P>>, <<P, T("printf", "b", "")>>, <<>>, <<T("expr", "1+2", "3")>>, <<T("throws", "throw('boo')", "boo")>>, <<T("nothrow", "1+1", "")>>, <<P, T("die", "", "")>>, <<T("mark", "", "")>>,
           <<T("read", "", ""), T("read", "", "")>>, <<T("args", "", "")>>, <<T("count", "", "")>>}
          \cup (IF Big THEN {<<T("syntax", "", "")>>, <<T("note", "'x'", ""), P>>, <<T("count", "", ""), T("count", "", "")>>, <<P, T("nothrow", "1+1", "")>>} ELSE {})
File(b, x, a, i) == [body |-> b, blk |-> IF x = "-" THEN "no" ELSE "yes", exp |-> IF x = "-" THEN "" ELSE x, args |-> a, inp |-> i]
Files == {File(b, x, "", <<>>) : b \in Bodies, x \in {"-", "a\n"}} \cup {File(<<T("args", "", "")>>, x, "p q", <<>>) : x \in {"-", "p q\n"}} \cup {File(<<T("read", "", "")>>, x, "", <<"l1">>) : x \in {"-", "<l1>\n"}}
B(o, ns, f, p) == [op |-> o, a |-> <<ns, f, p>>]
OptS == {O0, [O0 EXCEPT !.silent = TRUE], [O0 EXCEPT !.fmax = 1], [O0 EXCEPT !.args = "z w"], [O0 EXCEPT !.mode = "exec"]}
OptU == {O0, [O0 EXCEPT !.force = TRUE], [O0 EXCEPT !.args = "z"]}
OptF(st) == IF "t" \in DOMAIN st.tx THEN {[O0 EXCEPT !.inf = "t"], [O0 EXCEPT !.expf = "t"]} ELSE {}
Lists == {<<"a.jsi">>, <<"b.jsi">>, <<"a.jsi", "b.jsi">>, <<"b.jsi", "a.jsi">>, <<"a.jsi", "a.jsi">>}
NoInp(st) == \A n \in DOMAIN st.fs : st.fs[n].inp = <<>>
Ex(o, st) == o.mode = "exec" => NoInp(st)
SmallOps(st) ==
  LET D == DOMAIN st.fs IN
  IF "a.jsi" \notin D THEN {B("write", <<"a.jsi">>, f, O0) : f \in Files} \cup {B("run", <<"a.jsi">>, F0, O0)}
  ELSE IF "b.jsi" \notin D THEN {B("write", <<"b.jsi">>, f, O0) : f \in {x \in Files : Big \/ x.body \in {<<P>>, <<P, T("die", "", "")>>, <<T("args", "", "")>>, <<T("throws", "throw('boo')", "boo")>>}}}
         \cup {B("run", <<"a.jsi">>, F0, o) : o \in {x \in OptS \cup OptF(st) : Ex(x, st)}} \cup {B("update", <<"a.jsi">>, F0, o) : o \in OptU} \cup {B("run", l, F0, O0) : l \in {<<"a.jsi", "b.jsi">>, <<"e.txt">>}}
         \cup {B("show", <<"a.jsi">>, F0, O0), B("block", <<"a.jsi">>, F0, O0), B("text", <<"t">>, [F0 EXCEPT !.inp = <<"a">>], O0)}
         \cup {B("expect", <<"a.jsi">>, [F0 EXCEPT !.blk = "yes", !.exp = x], O0) : x \in {"", "a", "a\n", "1+2 ==> 3\n"}}
  ELSE {B("run", l, F0, o) : l \in Lists, o \in {x \in OptS : Ex(x, st)}} \cup {B("update", l, F0, o) : l \in Lists, o \in OptU} \cup {B(x, <<"a.jsi">>, F0, o) : x \in {"rundir", "upddir"}, o \in {O0, [O0 EXCEPT !.fmax = 1]}}
       \cup {B("block", <<n>>, F0, O0) : n \in {"a.jsi", "b.jsi"}}
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
