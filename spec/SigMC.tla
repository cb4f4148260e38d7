------------------------------- MODULE SigMC -------------------------------
(* Exhaustive exploration: two signals, callbacks that raise, remove, add, ignore and throw. *)
EXTENDS Sig
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {Init0}
Canon(st) == st
Gs == {"USR1", "WINCH"}
Kinds == {<<"log">>, <<"raise", "WINCH">>, <<"rmself">>, <<"add", "USR1">>} \cup IF Big THEN {<<"throw">>, <<"ignore", "USR1">>, <<"reset", "WINCH">>} ELSE {}
Op(o, args) == [op |-> o, a |-> args]
SmallOps(st) ==
  (IF Len(st.cbs) < 2 THEN {Op("cb", <<g, k>>) : g \in Gs, k \in Kinds} ELSE {})
  \cup {Op("rm", <<i>>) : i \in 1..Len(st.cbs)}
  \cup {Op(o, <<<<g>>>>) : o \in {"handle", "ignore", "reset"}, g \in Gs}
  \cup {Op("kill", <<g>>) : g \in Gs} \cup {Op("update", <<0>>)}
  \cup IF Big THEN {Op("list", <<d>>) : d \in {"H", "I"}} ELSE {}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
