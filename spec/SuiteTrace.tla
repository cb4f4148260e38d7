------------------------------ MODULE SuiteTrace ------------------------------
EXTENDS Suite, TraceCheck
InitT(tr) == {S0}
DoT(x, e) == Do(x, e)
=============================================================================
