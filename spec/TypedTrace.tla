------------------------------- MODULE TypedTrace -------------------------------
EXTENDS Typed, TraceCheck
InitT(tr) == {S0}
DoT(x, e) == Do(x, e)
=============================================================================
