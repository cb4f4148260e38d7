-------------------------------- MODULE PathTrace --------------------------------
EXTENDS Path, TraceCheck
\* the first operation gives the entries (a list) and the working directory
InitT(tr) == {S1({[p |-> x.p, k |-> x.k, t |-> x.t] : x \in {tr.ev[1].a[1][j] : j \in 1..Len(tr.ev[1].a[1])}}, tr.ev[1].a[2])}
DoT(x, e) == IF e.op = "start" THEN {[s |-> x, r |-> e.r]} ELSE Do(x, e)
=============================================================================
