------------------------------ MODULE FmtTrace ------------------------------
EXTENDS Fmt, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
