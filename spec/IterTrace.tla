----------------------------- MODULE IterTrace ------------------------------
EXTENDS Iter, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == Do(s, e)
=============================================================================
