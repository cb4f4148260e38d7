-------------------------------- MODULE RexMC --------------------------------
EXTENDS Rex
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {Init0}
Canon(st) == st
A == <<"c", "a">>  B == <<"c", "b">>
G(x) == <<"grp", 1, x>>
Trees == {A, <<"cat", <<A, B>>>>, <<"rep", A, 0, 99>>, <<"alt", <<A, <<"cat", <<A, B>>>>>>>>, <<"cat", <<<<"bol">>, A>>>>, <<"cat", <<B, <<"eol">>>>>>,
          <<"set", <<"a">>, TRUE>>, <<"any">>, <<"rep", B, 0, 1>>, <<"cat", <<A, <<"rep", <<"set", <<"a", "b">>, FALSE>>, 1, 2>>>>>>}
GTrees == {G(A), <<"cat", <<G(A), B>>>>, <<"cat", <<<<"rep", G(A), 0, 1>>, B>>>>, <<"alt", <<G(A), B>>>>, <<"cat", <<A, G(<<"rep", B, 0, 99>>)>>>>}
Strs == LET C == {"a", "b"} IN {<<>>} \cup {<<x>> : x \in C} \cup {<<x, y>> : x \in C, y \in C} \cup {<<x, y, z>> : x \in C, y \in C, z \in C}
        \cup (IF Big THEN {<<x, y, z, w>> : x \in C, y \in C, z \in C, w \in C \cup {"A"}} ELSE {<<"a", "b", "A", "b">>})
Tpl == << <<"t", <<"x">>>>, <<"&">>, <<"n", 1>>, <<"$">> >>
SmallOps(st) ==
  IF st = Init0 THEN {[op |-> "mk", a |-> <<1, t, n, g, ic, 0>>] : t \in Trees, n \in {0}, g \in BOOLEAN, ic \in {FALSE}} \cup
                     {[op |-> "mk", a |-> <<1, t, n, g, ic, 1>>] : t \in GTrees, n \in {1}, g \in BOOLEAN, ic \in {FALSE}} \cup
                     {[op |-> "mk", a |-> <<1, t, n, g, ic, 0>>] : t \in {A, <<"set", <<"a">>, TRUE>>}, n \in {0}, g \in BOOLEAN, ic \in {TRUE}}
  ELSE {[op |-> o, a |-> <<1, q>>] : o \in {"test", "search", "exec", "match", "replace1"}, q \in Strs} \cup
       (IF st.objs[1].li = 0 THEN {[op |-> "replace", a |-> <<1, q, Tpl>>] : q \in Strs} \cup {[op |-> "replaceN", a |-> <<1, q, n>>] : q \in Strs, n \in 0..2} ELSE {}) \cup
       {[op |-> "setLast", a |-> <<1, n>>] : n \in 0..4} \cup {[op |-> "getLast", a |-> <<1>>]}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
