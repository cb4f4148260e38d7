------------------------------ MODULE DbMC ------------------------------
(* Every program of a small grammar, in every order: transactions of each type nested in each other, in the callbacks of
   queries and on two connections, ended by a return, by an error or by the death of the process. *)
EXTENDS Db
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {Init0}
Canon(st) == st
Sim == {<<FALSE, "w", 1, 1, 5>>, <<TRUE, "w", 2, 1, 6>>, <<FALSE, "throw">>, <<TRUE, "r", 2>>}
Sim2 == Sim \cup {<<TRUE, "w", 1, 4, 1>>, <<TRUE, "x", 1, 2, 3>>, <<FALSE, "kill", 1>>, <<TRUE, "r", 1>>}
Bod == {<<a>> : a \in Sim2} \cup {<<a, b>> : a \in Sim, b \in Sim2}
Inn == {<<TRUE, "tx", c, 0, b>> : c \in 1..2, b \in {<<a>> : a \in Sim}} \cup {<<FALSE, "q", 2, <<a>>, 0>> : a \in {<<FALSE, "w", 1, 2, 4>>, <<FALSE, "throw">>}}
       \cup {<<FALSE, "imp", 1, <<<<2, 8>>>>, m>> : m \in 0..1}
Nest == {<<i>> : i \in Inn} \cup {<<a, i>> : a \in Sim, i \in Inn} \cup {<<i, a>> : a \in Sim, i \in Inn}
Progs == {<<<<TRUE, "tx", 1, ty, b>>>> : ty \in IF Big THEN 0..3 ELSE {0, 2, 3}, b \in Bod \cup Nest}
         \cup {<<<<TRUE, "q", 2, <<i>>, m>>>> : i \in {<<TRUE, "tx", 1, 0, <<a>>>> : a \in {<<FALSE, "w", 1, 1, 5>>, <<FALSE, "throw">>, <<TRUE, "r", 2>>}}
                                                    \cup {<<FALSE, "imp", 1, <<<<2, 8>>>>, m>> : m \in 0..1}, m \in 0..2}
         \cup {<<a>> : a \in {<<TRUE, "w", 1, 1, 0>>, <<FALSE, "conf", 1, 2, 1>>, <<FALSE, "conf", 1, 0, -1>>, <<TRUE, "x", 1, 3, 1>>}}
SmallOps(st) == {[op |-> "run", a |-> <<p>>] : p \in Progs}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
