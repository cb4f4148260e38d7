-------------------------------- MODULE StrMC --------------------------------
(* every method with every small string and argument: one operation on each of a set of contents of the variables *)
EXTENDS Str
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
Alpha == IF Big THEN {"a", "B", "eac", "han", " "} ELSE {"a", "eac", "han"}
Words2 == {<<>>} \cup {<<x>> : x \in Alpha} \cup {<<x, y>> : x \in Alpha, y \in Alpha}
Subj == {<<>>, <<"a">>, <<"eac">>, <<"han", "a">>, <<"a", "eac", "a", "eac">>, <<" ", "eac", "B", "han", "\t">>, <<"smi", "a", "han">>, <<"a", "a", "a">>}
I0 == {Init0}
Canon(st) == st
Ix == -3..5
SmallOps(st) ==
  IF st = Init0 THEN {[op |-> "fill", a |-> <<0, <<q, w, <<"eac">>, <<>>>>>>] : q \in Subj, w \in Words2} ELSE
  {[op |-> o, a |-> <<4, 1, n>>] : o \in {"charAt", "index", "code", "substr1", "substring1", "slice1", "repeat"}, n \in Ix} \cup
  {[op |-> o, a |-> <<4, 1, n, m>>] : o \in {"substr2", "substring2", "slice2"}, n \in Ix, m \in -2..5} \cup
  {[op |-> o, a |-> <<4, 1>>] : o \in {"copy", "app", "len", "substr0", "substring0", "words", "trim", "trimLeft", "trimRight", "toUpperCase", "toLowerCase", "toTitle", "oget"}} \cup
  {[op |-> o, a |-> <<4, 1, 2>>] : o \in {"plus", "indexOf", "lastIndexOf", "split", "join", "trimc", "trimLeftc", "trimRightc", "replacef", "search", "cmp"}} \cup
  {[op |-> o, a |-> <<4, 1, 2, n>>] : o \in {"indexFrom", "lastFrom"}, n \in Ix} \cup
  {[op |-> "replace", a |-> <<4, 1, 2, 3>>], [op |-> "concat", a |-> <<4, 1, 2, 3>>], [op |-> "map", a |-> <<4, 1, <<2, 3>>, FALSE>>], [op |-> "map", a |-> <<4, 1, <<2, 3, 3, 2>>, TRUE>>]}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
