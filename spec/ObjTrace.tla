------------------------------ MODULE ObjTrace ------------------------------
EXTENDS Obj, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == Do(s, e)
=============================================================================
