-------------------------------- MODULE PkgTrace --------------------------------
EXTENDS Pkg, TraceCheck
InitT(tr) == {S0}
DoT(x, e) == IF x.lost THEN {[s |-> x, r |-> e.r]}
             ELSE {[s |-> o.s, r |-> IF o.s.lost THEN e.r ELSE o.r] : o \in Do(x, e)}
=============================================================================
