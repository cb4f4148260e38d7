------------------------------- MODULE NumTrace -------------------------------
EXTENDS Num, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == Do(s, e)
===============================================================================
