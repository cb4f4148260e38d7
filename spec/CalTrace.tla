------------------------------ MODULE CalTrace ------------------------------
EXTENDS Cal, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
