------------------------------ MODULE ChanTrace ------------------------------
EXTENDS Chan, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
