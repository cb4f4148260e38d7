------------------------------ MODULE CtlTrace ------------------------------
EXTENDS Ctl, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == Do(s, e)
=============================================================================
