------------------------------ MODULE CollTrace ------------------------------
EXTENDS Coll, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
