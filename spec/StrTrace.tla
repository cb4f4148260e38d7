------------------------------ MODULE StrTrace ------------------------------
EXTENDS Str, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
