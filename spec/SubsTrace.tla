------------------------------- MODULE SubsTrace -------------------------------
EXTENDS Subs, TraceCheck
InitT(tr) == {S0}
DoT(x, e) == Do(x, e)
=============================================================================
