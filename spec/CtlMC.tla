-------------------------------- MODULE CtlMC --------------------------------
(* All programs that put a way of leaving into each part of a try statement, itself in another try, in every loop. *)
EXTENDS Ctl
CONSTANTS MaxDepth, Emit, Wide
VARIABLES s, hist
C(v) == [k |-> "c", v |-> v]
Log(t) == [k |-> "log", t |-> t]
Brk(l) == [k |-> "break", l |-> l]
Con(l) == [k |-> "continue", l |-> l]
Leave == {Log("x"), Brk(""), Con(""), [k |-> "return", x |-> C("r1")], [k |-> "throw", x |-> C("t1")]}
LeaveL == Leave \cup {Brk("o"), Con("o")}
LeaveE(i) == {Log("y"), [k |-> "throw", x |-> [k |-> "e", i |-> i]], Brk(""), [k |-> "return", x |-> [k |-> "e", i |-> i]]}
LeaveF == {Log("z"), Brk(""), Con(""), [k |-> "return", x |-> C("r2")], [k |-> "throw", x |-> C("t2")]}
Try(id, i, b, hc, cc, hf, f) == [k |-> "try", id |-> id, i |-> i, b |-> b, hasc |-> hc, c |-> cc, hasf |-> hf, f |-> f]
Tries1(id, i, leave) ==
  {Try(id, i, <<b, Log("b" \o id)>>, TRUE, <<c>>, TRUE, <<f>>) : b \in leave, c \in LeaveE(i), f \in LeaveF}
  \cup {Try(id, i, <<b, Log("b" \o id)>>, FALSE, <<>>, TRUE, <<f>>) : b \in leave, f \in LeaveF}
  \cup {Try(id, i, <<b, Log("b" \o id)>>, TRUE, <<c>>, FALSE, <<>>) : b \in leave, c \in LeaveE(i)}
Loop(kind, b) == CASE kind = "while" -> [k |-> "while", b |-> b]
                   [] kind = "do" -> [k |-> "do", b |-> b]
                   [] kind = "for" -> [k |-> "for", b |-> b, step |-> "st"]
                   [] kind = "each" -> [k |-> "each", b |-> b, keys |-> <<"a", "b">>, t |-> "k", of |-> FALSE]
Kinds == {"while", "do", "for", "each"}
Prog(ss) == [main |-> ss, fns |-> <<>>, bits |-> <<TRUE, TRUE, FALSE, TRUE>>, nums |-> <<>>]
Outer(kind, t) == Prog(<<[k |-> "label", l |-> "o", s |-> Loop(kind, <<t, Log("a")>>)], [k |-> "logx", x |-> [k |-> "w"]]>>)
Inner(kind, t) == <<[k |-> "label", l |-> "o", s |-> Loop(kind, <<[k |-> "while", b |-> <<t, Log("i")>>], Log("a")>>)], Log("end")>>
Simple == {Outer(kd, t) : kd \in Kinds, t \in Tries1("1", 1, LeaveL)}
Nested == {Prog(Inner(kd, t)) : kd \in Kinds, t \in Tries1("1", 1, {Brk("o"), Con("o"), Brk("")})}
Double == {Outer(kd, Try("2", 2, <<t, Log("b2")>>, hc, <<c>>, TRUE, <<f>>)) :
            kd \in (IF Wide THEN Kinds ELSE {"while"}), t \in Tries1("1", 1, IF Wide THEN LeaveL ELSE Leave), hc \in BOOLEAN, c \in (IF Wide THEN LeaveE(2) ELSE {Log("y")}), f \in (IF Wide THEN LeaveF ELSE {Log("z"), Brk("")})}
\* the inner statement in the catch part, and in the finally part, of the outer one
InC == {Outer(kd, Try("2", 2, <<[k |-> "throw", x |-> C("t0")]>>, TRUE, <<t, Log("c2")>>, TRUE, <<f>>)) :
            kd \in (IF Wide THEN Kinds ELSE {"while"}), t \in Tries1("1", 1, IF Wide THEN LeaveL ELSE Leave), f \in (IF Wide THEN LeaveF ELSE {Log("z"), Con("")})}
InF == {Outer(kd, Try("2", 2, <<b>>, FALSE, <<>>, TRUE, <<t, Log("f2")>>)) :
            kd \in (IF Wide THEN Kinds ELSE {"while"}), t \in Tries1("1", 1, IF Wide THEN LeaveL ELSE Leave), b \in (IF Wide THEN Leave ELSE {Brk(""), [k |-> "throw", x |-> C("t3")]})}
\* every way of leaving a with statement, the name looked up afterwards
LogW == [k |-> "logx", x |-> [k |-> "w"]]
Wth(w, b) == [k |-> "with", w |-> w, b |-> b]
Withs == {Outer(kd, Wth("w1", <<LogW, Wth("w2", <<LogW, b, LogW>>), LogW>>)) : kd \in Kinds, b \in LeaveL}
  \cup {Prog(<<[k |-> "label", l |-> "o", s |-> Loop(kd, <<Wth("w1", <<[k |-> "while", b |-> <<Wth("w2", <<b, LogW>>), LogW>>], LogW>>), LogW>>)], LogW>>) : kd \in Kinds, b \in LeaveL}
  \cup {Outer(kd, Wth("w1", <<t, LogW>>)) : kd \in Kinds, t \in {Try("1", 1, <<LogW, Wth("w2", <<LogW, b>>), LogW>>, TRUE, <<LogW, c>>, hf, <<LogW>>) : b \in Leave, c \in LeaveE(1), hf \in BOOLEAN}}
  \cup {[main |-> <<Wth("w1", <<Try("1", 1, <<[k |-> "logx", x |-> [k |-> "call", f |-> 1]], LogW>>, TRUE, <<LogW>>, TRUE, <<LogW>>), LogW>>), LogW>>,
         fns |-> <<<<LogW, [k |-> "while", b |-> <<Wth("w2", <<b>>), LogW>>], LogW>>>>, bits |-> <<TRUE, FALSE>>, nums |-> <<>>] : b \in Leave}
SmallOps(st) == {[op |-> "run", a |-> <<p>>] : p \in Simple \cup Nested \cup Double \cup InC \cup InF \cup Withs}
StepInv(st, e, o) == TRUE
Canon(st) == st
I0 == {Init0}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
