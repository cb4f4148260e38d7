-------------------------------- MODULE ArrMC --------------------------------
(* Exhaustive exploration: registers 1 and 2 over two scalars, lists up to 3, with aliasing. *)
EXTENDS Arr
CONSTANTS MaxDepth, Emit, MaxLen
VARIABLES s, hist
Vs == {"n1", "n2"}
\* drop unreachable arrays and renumber, so that states are finite
Canon(st) ==
  LET ord == <<st.reg[1], st.reg[2], st.reg[3], st.reg[4]>>
      ids == SelectSeq(ord, LAMBDA i : TRUE)
      uniq == {ord[i] : i \in 1..4}
      first(id) == CHOOSE i \in 1..4 : ord[i] = id /\ \A j \in 1..(i-1) : ord[j] # id
      pos(id) == Cardinality({u \in uniq : first(u) <= first(id)})
      back == [k \in 1..Cardinality(uniq) |-> CHOOSE u \in uniq : pos(u) = k]
  IN [reg |-> [i \in 1..4 |-> pos(ord[i])], heap |-> [k \in 1..Cardinality(uniq) |-> st.heap[back[k]]]]
Idx == -3..4
Opt == {<<>>} \cup {<<i>> : i \in {-2, 0, 1, 3}}
Op(o, args) == [op |-> o, a |-> args]
Room(st, x, k) == Len(Arr(st, x)) + k <= MaxLen
SmallOps(st) ==
  {Op("push", <<1, <<v>>>>) : v \in IF Room(st, 1, 1) THEN Vs ELSE {}}
  \cup {Op("unshift", <<1, <<v>>>>) : v \in IF Room(st, 1, 1) THEN Vs ELSE {}}
  \cup {Op("pop", <<x>>) : x \in 1..2} \cup {Op("shift", <<1>>)}
  \cup {Op("alias", <<2, 1>>), Op("alias", <<1, 2>>)}
  \cup {Op("set", <<1, i, "n2">>) : i \in {j \in 0..2 : j < MaxLen}}
  \cup {Op("splice", <<1, 2, i, h, <<>>>>) : i \in Idx, h \in {<<>>, <<0>>, <<1>>, <<2>>, <<-1>>}}
  \cup {Op("splice", <<1, 2, i, h, <<"n1">>>>) : i \in Idx, h \in IF Room(st, 1, 1) THEN {<<0>>, <<1>>, <<2>>, <<-1>>} ELSE {}}
  \cup {Op("slice", <<1, 2, i, e>>) : i \in Idx, e \in Opt}
  \cup {Op("fill", <<1, 2, "n2", b, e>>) : b \in Opt \ {<<>>}, e \in Opt}
  \cup {Op("fill", <<1, 2, "n1", <<>>, <<>>>>)}
  \cup {Op("reverse", <<1, 2>>)}
  \cup {Op("concat", <<1, 2, <<"R2">>>>) : z \in IF Len(Arr(st, 1)) + Len(Arr(st, 2)) <= MaxLen THEN {1} ELSE {}}
  \cup {Op("indexOf", <<1, v, b>>) : v \in Vs, b \in Opt}
  \cup {Op("lastIndexOf", <<1, "n1", <<>>>>), Op("includes", <<2, "n2">>)}
  \cup {Op("get", <<1, i>>) : i \in Idx}
I0 == {Init0}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
