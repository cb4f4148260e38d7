------------------------------- MODULE ConfTrace -------------------------------
EXTENDS Conf, TraceCheck, SequencesExt
\* The options as first found: a list of [path, text, names].
Fn(q) == [p \in {q[j][1] : j \in 1..Len(q)} |-> LET j == CHOOSE j \in 1..Len(q) : q[j][1] = p IN [s |-> q[j][2], l |-> q[j][3]]]
InitT(tr) == LET a == tr.ev[1].a IN {[at |-> [i \in {"M"} |-> Fn(a[1])], fresh |-> [plain |-> Fn(a[2]), safe |-> Fn(a[3])]]}
\* What changed is reported as a list, in any order.
DoT(x, e) == IF e.op = "setup" THEN {[s |-> x, r |-> 0]} ELSE {[o EXCEPT !.r.ch = IF @ = Rng(e.r.ch) /\ Len(e.r.ch) = Cardinality(@) THEN e.r.ch ELSE SetToSeq(@)] : o \in Do(x, e)}
=============================================================================
