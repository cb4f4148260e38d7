----------------------------- MODULE DbTrace -----------------------------
EXTENDS Db, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
