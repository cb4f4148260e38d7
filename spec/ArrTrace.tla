------------------------------ MODULE ArrTrace ------------------------------
EXTENDS Arr, TraceCheck
InitT(tr) == {Init0}
DoT(s, e) == IF e.op = "reset" THEN {Res(Init0, "u")} ELSE Do(s, e)
=============================================================================
