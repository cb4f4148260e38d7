------------------------------ MODULE CloTrace ------------------------------
EXTENDS Clo, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == Do(s, e)
=============================================================================
