------------------------------- MODULE CloMC -------------------------------
(* All short histories of a fixed repertoire: factories, shared and separate closures, binding, this, parameters as arguments. *)
EXTENDS Clo
CONSTANTS MaxDepth, Emit
VARIABLES s, hist
Canon(st) == st
F(params, locals, body) == <<"fun", "e", params, [i \in 1..Len(params) |-> <<>>], locals, body>>
Inc(x, k) == <<"set", x, <<"add", Var(x), Num(k)>>>>
C(f) == <<"call", f, <<>>>>
Rep == {<<"set", "ca", <<"call", Var("ma"), <<Num(10)>>>>>>,                       \* a new counter
        <<"set", "cb", Var("ca")>>,                                                \* another name for it
        <<"set", "cb", <<"bind", Var("ca"), Var("oa"), <<>>>>>>,
        <<"log", C(Var("ca"))>>, <<"log", C(Var("cb"))>>,
        <<"set", "ca", F(<<>>, <<<<"nb", Num(5)>>>>, <<Inc("nb", 1), Inc("na", 1), <<"add", Var("na"), Var("nb")>>>>)>>,
        <<"set", "ma", F(<<"nb">>, <<<<"nc", Num(100)>>>>, <<F(<<>>, <<>>, <<Inc("nb", 1), Inc("nc", 1), <<"add", Var("nb"), Var("nc")>>>>)>>)>>,
        <<"set", "oa", <<"new", Var("ka"), <<Num(20)>>>>>>,
        <<"setp", Var("oa"), "zm", Var("ca")>>,
        <<"log", <<"mcall", Var("oa"), "zm", <<>>>>>>,
        <<"set", "ca", F(<<>>, <<>>, <<<<"setp", <<"this">>, "zp", <<"add", <<"getp", <<"this">>, "zp">>, Num(1)>>>>>>)>>,
        <<"log", <<"via", "apply", Var("ca"), Var("oa"), <<>>>>>>,
        <<"set", "ca", <<"bind", F(<<"na">>, <<>>, <<Inc("na", 1)>>), Var("oa"), <<Num(40)>>>>>>,
        <<"set", "cb", <<"call", F(<<"ca">>, <<>>, <<F(<<>>, <<>>, <<<<"add", C(Var("ca")), C(Var("ca"))>>>>)>>), <<Var("ca")>>>>>>,
        <<"log", <<"call", F(<<"na", "nb">>, <<>>, <<<<"set", "na", <<"num", 50>>>>, <<"setarg", 2, Num(60)>>, <<"add", <<"arg", 1>>, <<"add", Var("nb"), <<"argc">>>>>>>>), <<Var("na"), Var("na")>>>>>>}
SmallOps(st) == {[op |-> "ev", a |-> <<e>>] : e \in Rep}
I0 == {Init0}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
