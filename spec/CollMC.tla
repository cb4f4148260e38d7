-------------------------------- MODULE CollMC --------------------------------
EXTENDS Coll
CONSTANTS MaxDepth, Emit, Kind
VARIABLES s, hist
\* lists: two lists and the entries made by the history; maps: one map and handles
I0 == IF Kind = 3 THEN {[Init0 EXCEPT !.m = <<[t |-> 3, fp |-> 1, c |-> <<>>], [t |-> 3, fp |-> 1, c |-> <<>>]>>]}
      ELSE {[Init0 EXCEPT !.m = <<[t |-> Kind, fp |-> 1, c |-> <<>>]>>]}
Canon(st) == st
Alive(st) == {x \in 1..Len(st.l) : st.l[x].m >= 0}
SmallOps(st) ==
  IF Kind = 3 THEN
    {[op |-> "lnew", a |-> <<i, Len(st.l) + 3, b>>] : i \in 1..2, b \in 0..Len(st.l)} \cup
    {[op |-> "lmove", a |-> <<i, x, b>>] : i \in 1..2, x \in Alive(st), b \in 0..Len(st.l)} \cup
    {[op |-> "lpop", a |-> <<st.l[x].m, x>>] : x \in {y \in Alive(st) : st.l[y].m > 0}} \cup
    {[op |-> "ldel", a |-> <<IF st.l[x].m = 0 THEN 1 ELSE st.l[x].m, x>>] : x \in Alive(st)} \cup
    {[op |-> o, a |-> <<i>>] : o \in {"lpopback", "lpopfront"}, i \in {j \in 1..2 : st.m[j].c # <<>>}} \cup
    {[op |-> "clear", a |-> <<i>>] : i \in 1..2}
  ELSE
    {[op |-> "set", a |-> <<1, k, k + 5>>] : k \in 0..3} \cup
    {[op |-> o, a |-> <<1, k>>] : o \in {"unset", "enew", "get"}, k \in 0..3} \cup
    {[op |-> "hold", a |-> <<1, k>>] : k \in IF Len(st.h) < 2 THEN 0..3 ELSE {}} \cup
    {[op |-> o, a |-> <<j>>] : o \in {"hget", "hdel"}, j \in {i \in 1..Len(st.h) : st.h[i].ok}} \cup
    {[op |-> "clear", a |-> <<1>>]}
Ok(e, st) == Kind = 3 /\ e.op \in {"lnew", "lmove"} /\ e.a[3] # 0 => st.l[e.a[3]].m = e.a[1] /\ (e.op = "lmove" => e.a[3] # e.a[2])
Do2(st, e) == IF Ok(e, st) THEN Do(st, e) ELSE {}
INSTANCE Explore WITH InitSet <- I0, Do <- Do2
=============================================================================
