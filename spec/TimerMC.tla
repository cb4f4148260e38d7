------------------------------ MODULE TimerMC ------------------------------
(* Exhaustive exploration: every history of setting, clearing, sleeping and updating over a table of re-entrant callbacks. *)
EXTENDS Timer
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
U(mi, ma, pa, sl) == [min |-> mi, max |-> ma, passes |-> pa, sleep |-> sl]
Tab == << <<>>, << <<"clearself">>, <<"set", TRUE, 0, 1>> >>, << <<"clear", 1>>, <<"clear", 2>> >>, << <<"update", U(0, -1, 0, 1)>>, <<"throw">> >>,
          << <<"sleep", 3>>, <<"names">>, <<"info", 1>> >> >>
I0 == {[Init0 EXCEPT !.sc = Tab]}
Canon(st) == st
SmallOps(st) ==
  {[op |-> "set", a |-> <<o, m, i>>] : o \in BOOLEAN, m \in IF Big THEN {-2, 0, 2, 3} ELSE {0, 2}, i \in IF st.n < 3 THEN 1..5 ELSE {}}
  \cup {[op |-> "clear", a |-> <<k>>] : k \in 1..3}
  \cup {[op |-> "sleep", a |-> <<m>>] : m \in {2}}
  \cup {[op |-> "update", a |-> <<u>>] : u \in {U(0, -1, 0, 1), U(5, -1, 0, 1), U(4, 2, 0, 2), U(-1, -1, 2, 1)}}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
