-------------------------------- MODULE DStrMC --------------------------------
(* Every history of few operations on one string of each kind, with lengths around its static size and beyond. *)
EXTENDS DStr
CONSTANTS MaxDepth, Emit, Sz
VARIABLES s, hist
I0 == {<< <<>> >>}
Canon(st) == st
Lens == {1, Sz - 2, Sz - 1, Sz, Sz + 1}
SmallOps(st) ==
  {[op |-> "app", a |-> <<1, 97, n, 0, -1, 0, -1>>] : n \in Lens} \cup
  {[op |-> "printf", a |-> <<1, 98, n, 0, 0, 0>>] : n \in Lens} \cup
  {[op |-> "setlen", a |-> <<1, n>>] : n \in {0, Sz - 1, 2 * Sz}} \cup
  {[op |-> o, a |-> <<1>>] : o \in {"free", "freedup"}} \cup
  {[op |-> "set", a |-> <<1, 99, n>>] : n \in {0, Sz}}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
