------------------------------ MODULE SafeTrace ------------------------------
EXTENDS Safe, TraceCheck
InitT(tr) == {S0}
DoT(x, e) == Do(x, e)
=============================================================================
