-------------------------------- MODULE FmtMC --------------------------------
(* every conversion with every combination of flags, width, precision and a set of numbers and texts; every way to turn numbers
   into texts and back *)
EXTENDS Fmt
CONSTANTS MaxDepth, Emit, Wide
VARIABLES s, hist
I0 == {Init0}
Canon(st) == st
Nums == IF Wide THEN {0, 8, -8, 56, 80, 100, -101, 125, 2040, -2048, 8 * 1000, -8 * 65536, 1, -4, 8 * 999 + 7, 79} ELSE {0, 8, -56, 100, 2040, -2048, 8 * 999 + 7}
FlagSets == {<<>>, <<"-">>, <<"0">>, <<"+">>, <<" ">>, <<"#">>, <<"-", "0">>, <<"0", "+">>, <<"#", "0">>} \cup
            (IF Wide THEN {<<"-", "#">>, <<"+", " ">>, <<"#", "0", "-">>, <<"+", "#">>} ELSE {})
Ws == {<<>>, <<"6">>, <<"*">>} \cup (IF Wide THEN {<<"1">>, <<"2", "4">>} ELSE {})
Ps == {<<>>, <<".">>, <<".", "3">>, <<".", "*">>} \cup (IF Wide THEN {<<".", "0">>, <<".", "1">>, <<".", "1", "2">>} ELSE {})
Cs == {"d", "u", "x", "X", "o", "f", "e", "g", "s", "S", "q", "c"} \cup (IF Wide THEN {"i", "E", "G", "C", "z", "%"} ELSE {"z"})
N(k) == [t |-> "n", k |-> k, v |-> <<>>]
T(v) == [t |-> "s", k |-> 0, v |-> v]
VN == [t |-> "N", k |-> 0, v |-> <<>>]
VQ == [t |-> "Q", k |-> 0, v |-> <<>>]
Stars(w, p) == (IF w = <<"*">> THEN 1 ELSE 0) + (IF p = <<".", "*">> THEN 1 ELSE 0)
Pre(k) == IF k = 0 THEN {<<>>} ELSE IF k = 1 THEN {<<N(32)>>, <<N(-40)>>} ELSE {<<N(56), N(16)>>, <<N(-40), N(-8)>>}
SmallOps(st) ==
  IF st = Init0 THEN {[op |-> "set", a |-> <<k>>] : k \in Nums} \cup {[op |-> "lit", a |-> <<t>>] : t \in {<<"a">>, <<"1", "2", "p">>, <<"-", "0", "x", "1", "F", "g">>, <<"0", "1", "7", "8">>,
        <<" ", "+", "1", ".", "5", "e", "1", " ">>, <<"eac", "b", "eac", "c">>, <<"1", "e", "-">>, <<".", "5">>, <<"z", "z">>, <<"0", "x">>, <<"-", ".", "x">>, <<" ">>}}
  ELSE
    (LET x == IF st.q = <<>> THEN VN ELSE VQ
         C2 == IF st.q = <<>> THEN Cs ELSE {"s", "S", "q", "c", "d"} IN
     {[op |-> "fmt", a |-> <<<<"<", "%">> \o f \o w \o p \o <<c, ">">>, pa \o <<x>>>>] : f \in FlagSets, w \in Ws, p \in Ps, c \in C2, pa \in {<<>>, <<N(-40)>>}} \cup
     {[op |-> "fmt", a |-> <<<<"%">> \o w \o p \o <<c, "%", "S">>, pa \o <<x>> \o y>>] : w \in Ws, p \in Ps, c \in C2, pa \in Pre(1) \cup Pre(2), y \in {<<>>, <<VN>>}}) \cup
    {[op |-> o, a |-> <<r>>] : o \in {"rad"}, r \in {0, 1, 2, 3, 8, 10, 16, 36, 37}} \cup
    {[op |-> o, a |-> <<r>>] : o \in {"fix", "exp"}, r \in {0, 1, 2, 3, 4, 7, 10, 40, 101}} \cup
    {[op |-> o, a |-> <<>>] : o \in {"str", "nstr", "pintn", "num", "pflt"}} \cup {[op |-> "pint", a |-> <<r>>] : r \in {0, 1, 2, 8, 10, 16, 36, 37}} \cup
    {[op |-> "kind", a |-> <<k>>] : k \in {"isInteger", "isFinite", "isNaN", "isSafeInteger"}}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
