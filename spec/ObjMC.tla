-------------------------------- MODULE ObjMC --------------------------------
(* Exhaustive exploration: registers 1 and 2, two keys, two values, prototypes, aliasing and all freeze modes. *)
EXTENDS Obj
CONSTANTS MaxDepth, Emit
VARIABLES s, hist
Op(o, args) == [op |-> o, a |-> args]
\* drop unreachable objects and renumber, so that states are finite
RECURSIVE Uniq(_, _)
Uniq(q, seen) == IF q = <<>> THEN seen ELSE Uniq(Tail(q), IF \E i \in 1..Len(seen) : seen[i] = q[1] THEN seen ELSE Append(seen, q[1]))
Canon(st) ==
  LET ids == Uniq(FlattenSeq([i \in Regs |-> Chain(st, st.reg[i])]), <<>>)
      pos(id) == IF id = 0 THEN 0 ELSE CHOOSE i \in 1..Len(ids) : ids[i] = id
  IN [reg |-> [i \in Regs |-> pos(st.reg[i])],
      heap |-> [i \in 1..Len(ids) |-> [Ob(st, ids[i]) EXCEPT !.proto = pos(@)]]]
Ks == {"a", "b"}
SmallOps(st) ==
  {Op("set", <<x, k, v>>) : x \in 1..2, k \in Ks, v \in {"n1", "n2"}}
  \cup {Op("del", <<1, k>>) : k \in Ks}
  \cup {Op("get", <<x, k>>) : x \in 1..2, k \in Ks}
  \cup {Op("forind", <<1, <<k>>>>) : k \in Ks}
  \cup {Op("own", <<x, "a">>) : x \in 1..2}
  \cup {Op("keys", <<x>>) : x \in 1..2}
  \cup {Op("incr", <<x, "a", 1, "post">>) : x \in {y \in 1..2 : Get(st, st.reg[y], "a") = "n1"}}
  \cup {Op("setproto", <<2, 1>>), Op("setproto", <<1, 2>>), Op("isproto", <<1, 2>>), Op("getproto", <<2>>)}
  \cup {Op("alias", <<2, 1>>), Op("assign", <<1, <<2>>>>), Op("create", <<2, 1, <<>>>>), Op("merge", <<1, 2, 2>>), Op("lit", <<1, <<>>, FALSE>>)}
  \cup {Op("freeze", <<1, TRUE, m, c>>) : m, c \in BOOLEAN} \cup {Op("freeze", <<1, FALSE, TRUE, TRUE>>)}
I0 == {Init0}
Small(st) == \A i \in 1..Len(st.heap) : Len(Chain(st, i)) <= 3
INSTANCE Explore WITH InitSet <- I0
EXBound == Small(s)
=============================================================================
