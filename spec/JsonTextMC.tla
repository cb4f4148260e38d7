---------------------------- MODULE JsonTextMC ----------------------------
(* Every text of up to MaxLen tokens, with what the grammar says about it.  Laws of every text: blanks around it change
   nothing, and it is the element of an array and the value of a property exactly when it is JSON itself. *)
EXTENDS JsonText
CONSTANTS MaxDepth, MaxLen, Emit
VARIABLES s, hist
I0 == {Init0}
Canon(st) == Init0
Toks == {<<"{">>, <<"}">>, <<"[">>, <<"]">>, <<",">>, <<":">>, <<"1">>, <<"\"", "a", "\"">>, <<"-">>, <<"t", "r", "u", "e">>, <<" ">>}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET q == Texts(n - 1) IN q \cup {x \o y : x \in Toks, y \in {z \in q : TRUE}}
Tab == [x \in {"1", "11", "111", "1111", "11111", "-1", "-11", "-111", "-1111"} |-> x]
NumTab(t) == Tab
SmallOps(st) == {[op |-> "check", a |-> <<t, Tab, TRUE, Parse(t, Tab) # {}>>] : t \in Texts(MaxLen) \ {<<>>}}
Laws(st, e, t) ==
  LET x == e.a[1]  p == Parse(x, Tab) IN
  /\ Parse(<<" ">> \o x \o <<"\n">>, Tab) = p
  /\ (p # {}) => Parse(<<"[">> \o x \o <<"]">>, Tab) = {<<"a", <<v>>>> : v \in p}
  /\ (p # {}) => Parse(<<"{", "\"", "k", "\"", ":">> \o x \o <<"}">>, Tab) = {<<"o", {<<<<"k">>, v>>}>> : v \in p}
  /\ (p # {}) => Parse(Append(x, "]"), Tab) = {}
INSTANCE Explore WITH InitSet <- I0, StepInv <- Laws
=============================================================================
