------------------------------ MODULE ExecTrace ------------------------------
EXTENDS Exec, TraceCheck
InitT(tr) == {S0}
DoT(x, e) == Do(x, e)
=============================================================================
