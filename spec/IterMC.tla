------------------------------- MODULE IterMC -------------------------------
(* Every method on every array up to 3 (with holes), with every script of up to 2 actions. *)
EXTENDS Iter
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
Canon(st) == st
Vs == {"n1", "n0", HOLE}
Arrays == UNION {[1..n -> Vs] : n \in 0..(IF Big THEN 3 ELSE 2)} \cup {<<"n1", HOLE, "n2">>, <<HOLE, HOLE, "n1">>, <<"n1", "n2", "n3">>}
Acts == {<<"none", 0, "u", r>> : r \in {"bT", "bF", "throw"}}
        \cup {<<x, 0, "n5", r>> : x \in {"push", "pop", "shift", "unshift", "clear"}, r \in {"bF", "bT"}}
        \cup {<<"set", i, "n6", "bT">> : i \in {0, 2}} \cup {<<"splice", i, "n6", "bF">> : i \in {0, 1}} \cup {<<"setp", 0, "n9", "bT">>, <<"nest", 0, "u", "bF">>}
Scripts == {<<>>} \cup {<<x>> : x \in Acts} \cup {<<x, y>> : x, y \in Acts}
Scripts2 == IF Big THEN Scripts ELSE {<<x, y>> : x \in Acts, y \in {<<"none", 0, "u", "bT">>, <<"none", 0, "u", "bF">>, <<"shift", 0, "n5", "bF">>}}
Op(o, args) == [op |-> o, a |-> args]
SmallOps(st) ==
  IF st.a = <<"start">> THEN {Op("lit", <<a>>) : a \in Arrays}
  ELSE {Op("iter", <<m, 3, <<>>, FALSE, sc>>) : m \in {"forEach", "map", "filter", "find", "findIndex", "some", "every"}, sc \in Scripts2}
       \cup {Op("iter", <<m, 4, i, FALSE, sc>>) : m \in {"reduce", "reduceRight"}, i \in {<<>>, <<"n7">>}, sc \in Scripts2}
EXBound == TRUE
I0 == {[a |-> <<"start">>]}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
