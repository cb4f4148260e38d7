------------------------------ MODULE OpsTrace ------------------------------
EXTENDS Ops, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == Do(s, e)
=============================================================================
