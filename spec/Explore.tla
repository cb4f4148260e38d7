------------------------------- MODULE Explore -------------------------------
(* Exhaustive exploration of a specification within small constants, shared by all properties:
   every state reachable by SmallOps within MaxDepth operations, its invariants, the laws of
   every step (StepInv), and one emitted path per transition, which is then performed in the implementation.
   Canon maps a state to a representative (the identity where there is nothing to merge).     *)
EXTENDS TLC, Sequences, Naturals, Json
CONSTANTS Do(_, _), InitSet, SmallOps(_), Inv(_), StepInv(_, _, _), Canon(_), MaxDepth, Emit
VARIABLES s, hist
View == s
EXInit == s \in InitSet /\ hist = <<>>
EXNext == /\ Len(hist) < MaxDepth
          /\ \E e \in SmallOps(s) : \E o \in Do(s, e) :
               /\ Assert(StepInv(s, e, o.s), <<"step invariant", s, e, o>>)
               /\ s' = Canon(o.s)
               /\ hist' = Append(hist, [op |-> e.op, a |-> e.a, r |-> o.r])
EXInv == Inv(s)
EXEmit == Emit => PrintT(<<"HIST", ToJson(hist')>>)
=============================================================================
