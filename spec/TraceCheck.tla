----------------------------- MODULE TraceCheck -----------------------------
(* Validation of recorded executions, shared by all properties.
   A trace is a sequence of events [op, a, r]: the operation performed on the implementation, its
   arguments, and what was observed.  TDo(s, e) is the specification: the set of [s, r] the
   system may move to from s when asked for e.  A trace is accepted when for every event some
   state the specification can be in has a transition with exactly the observed result.  S is
   the set of all such states (subset construction), so nondeterminism costs no search.        *)
EXTENDS TLC, Sequences, Naturals, Json, IOUtils
CONSTANTS TDo(_, _), TInit(_), TInv(_)   \* given by the configuration: TDo <- DoT, TInit <- InitT, TInv <- Inv
VARIABLES t, l, S
TCvars == <<t, l, S>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
TCInit == /\ t \in 1..Len(Traces)
          /\ l = 1
          /\ S = TInit(Traces[t])
Outcomes(e) == UNION {TDo(x, e) : x \in S}
TCNext ==
  LET ev == Traces[t].ev IN
  IF l > Len(ev)
  THEN /\ l = Len(ev) + 1
       /\ PrintT(<<"ACCEPT", ToJson(<<t>>)>>)
       /\ l' = l + 1 /\ S' = {} /\ t' = t
  ELSE LET all == IF "bad" \in DOMAIN ev[l] THEN {} ELSE Outcomes(ev[l])   \* bad: the implementation did not get so far
           ok  == {o \in all : o.r = ev[l].r}
       IN IF ok = {}
          THEN /\ PrintT(<<"REJECT", ToJson(<<t, l, IF Len(ev) > 2000 THEN <<>> ELSE {o.r : o \in all}>>)>>)
               /\ FALSE
          ELSE /\ S' = {o.s : o \in ok}
               /\ l' = l + 1 /\ t' = t
TCInv == \A x \in S : TInv(x)
=============================================================================
