------------------------------- MODULE FramesTrace -------------------------------
EXTENDS Frames, TraceCheck
InitT(tr) == {S0}
DoT(x, e) == Do(x, e)
=============================================================================
