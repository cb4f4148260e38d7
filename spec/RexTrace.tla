------------------------------ MODULE RexTrace ------------------------------
EXTENDS Rex, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
