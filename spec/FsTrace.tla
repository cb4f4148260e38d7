------------------------------- MODULE FsTrace -------------------------------
EXTENDS Fs, TraceCheck
InitT(tr) == {Init0}
DoT(x, e) == FsDo(x, e)
Inv(x) == FsInv(x)
=============================================================================
