----------------------------- MODULE JsonTextTrace -----------------------------
EXTENDS JsonText, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
