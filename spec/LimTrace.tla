-------------------------------- MODULE LimTrace --------------------------------
EXTENDS Lim, TraceCheck
InitT(tr) == {S0}
DoT(x, e) == Do(x, e)
=============================================================================
