------------------------------ MODULE SigTrace ------------------------------
EXTENDS Sig, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == Do(s, e)
=============================================================================
