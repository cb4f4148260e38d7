----------------------------- MODULE QryTrace -----------------------------
EXTENDS Qry, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == Do(x, e)
=============================================================================
