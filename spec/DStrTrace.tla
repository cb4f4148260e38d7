------------------------------ MODULE DStrTrace ------------------------------
EXTENDS DStr, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
