----------------------------- MODULE TimerTrace -----------------------------
EXTENDS Timer, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == Do(s, e)
=============================================================================
