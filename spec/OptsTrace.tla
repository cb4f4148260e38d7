------------------------------ MODULE OptsTrace ------------------------------
EXTENDS Opts, TraceCheck
InitT(tr) == {S0}
DoT(x, e) == Do(x, e)
=============================================================================
