------------------------------ MODULE EncTrace ------------------------------
EXTENDS Enc, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == Do(s, e)
=============================================================================
