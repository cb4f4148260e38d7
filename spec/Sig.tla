--------------------------------- MODULE Sig ---------------------------------
(* Signals.  State: what each signal does (D default, H noted for callbacks, I ignored), those delivered and not yet given
   to a callback, the callbacks [g: signal, k: what it does, live], whether an alarm is set, and the signal the
   process died of ("" while it lives).  A callback logs "h<number>" and then does what its kind says.            *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
Sigs == {"USR1", "USR2", "TERM", "ALRM", "WINCH", "URG"}
Kills == {"USR1", "USR2", "TERM", "ALRM"}            \* by default
Init0 == [disp |-> [g \in Sigs |-> "D"], pend |-> {}, cbs |-> <<>>, alarm |-> FALSE, dead |-> ""]

Deliver(s, g) == CASE s.disp[g] = "H" -> [s EXCEPT !.pend = @ \cup {g}]
                   [] s.disp[g] = "D" /\ g \in Kills -> [s EXCEPT !.dead = g]
                   [] OTHER -> s
Live(s) == {i \in 1..Len(s.cbs) : s.cbs[i].live}
Has(s, g) == \E i \in Live(s) : s.cbs[i].g = g
Elems(q) == {q[i] : i \in 1..Len(q)}

\* a new callback makes its signal one for callbacks; a delivery that nobody was there for may be kept for it or not
AddCb(s, g, k) == LET t == [s EXCEPT !.cbs = Append(@, [g |-> g, k |-> k, live |-> TRUE]), !.disp[g] = "H"] IN
                  IF g \in s.pend /\ ~Has(s, g) THEN {t, [t EXCEPT !.pend = @ \ {g}]} ELSE {t}
\* what was delivered before a signal is ignored or reset may still reach a callback, or not
SetDisp(s, gs, d) == LET t == [s EXCEPT !.disp = [g \in Sigs |-> IF g \in gs THEN d ELSE @[g]]] IN
                     IF d = "H" THEN {t} ELSE {[t EXCEPT !.pend = @ \ x] : x \in SUBSET (gs \cap s.pend)}
Act(s, i) ==
  LET k == s.cbs[i].k IN
  CASE k[1] = "log" \/ k[1] = "throw" -> {s}
    [] k[1] = "raise" -> {Deliver(s, k[2])}
    [] k[1] = "rmself" -> {[s EXCEPT !.cbs[i].live = FALSE]}
    [] k[1] = "add" -> AddCb(s, k[2], <<"log">>)
    [] k[1] = "ignore" -> SetDisp(s, {k[2]}, "I")
    [] k[1] = "reset" -> SetDisp(s, {k[2]}, "D")

\* one round of event processing: every callback there at its start gets its turn once, in any order, and runs if its
\* signal was delivered by then and not given to another one
RECURSIVE Round(_, _, _)
Round(s, ids, log) ==
  IF s.dead # "" THEN {[s |-> s, log |-> log]}
  ELSE LET ready == {i \in ids : s.cbs[i].live /\ s.cbs[i].g \in s.pend}
           raisers == {i \in ready : s.cbs[i].k[1] \notin {"log", "throw"}}
           \* those passed over before something is raised for them
           skips == IF raisers = {} THEN {{}} ELSE SUBSET {i \in ids : s.cbs[i].live /\ s.cbs[i].g \notin s.pend}
       IN IF ready = {} THEN {[s |-> s, log |-> log]}
          ELSE UNION {UNION {UNION {Round(t, (ids \ {i}) \ sk, Append(log, "h" \o ToString(i))) :
                                      t \in Act([s EXCEPT !.pend = @ \ {s.cbs[i].g}], i)} : sk \in skips} : i \in ready}
Update(s) == Round(s, Live(s), <<>>)

Died(s, r) == IF s.dead = "" THEN r ELSE Append(SelectSeq(r, LAMBDA x : x # "ok" /\ x # "z" /\ x # "p"), "dead-" \o s.dead)
Sort == <<"ALRM", "TERM", "URG", "USR1", "USR2", "WINCH">>
Do(s, e) ==
  LET a == e.a IN
  IF s.dead # "" THEN {} ELSE
  CASE e.op = "cb" -> {[s |-> t, r |-> <<"ok">>] : t \in AddCb(s, a[1], a[2])}
    [] e.op = "rm" -> IF a[1] \in Live(s) THEN {[s |-> [s EXCEPT !.cbs[a[1]].live = FALSE], r |-> <<"ok">>]} ELSE {[s |-> s, r |-> <<"e">>]}
    [] e.op = "handle" -> {[s |-> t, r |-> <<"ok">>] : t \in SetDisp(s, Elems(a[1]), "H")}
    [] e.op = "ignore" -> {[s |-> t, r |-> <<"ok">>] : t \in SetDisp(s, Elems(a[1]), "I")}
    [] e.op = "reset" -> {[s |-> t, r |-> <<"ok">>] : t \in SetDisp(s, Elems(a[1]), "D")}
    [] e.op = "list" -> {[s |-> s, r |-> SelectSeq(Sort, LAMBDA g : s.disp[g] = a[1])]}
    [] e.op = "kill" -> LET t == Deliver(s, a[1]) IN {[s |-> t, r |-> Died(t, <<"ok">>)]}
    \* refused or without effect: an unknown signal or event, signal 0, something that is not a function
    [] e.op = "bad" -> {[s |-> s, r |-> <<IF a[1] = "kill0" THEN "ok" ELSE "e">>]}
    [] e.op = "update" -> {[s |-> o.s, r |-> Died(o.s, o.log)] : o \in Update(s)}
    \* an alarm far away, or none: tells whether there was one
    [] e.op = "alarm" -> {[s |-> [s EXCEPT !.alarm = a[1]], r |-> <<IF s.alarm THEN "p" ELSE "z">>]}
    \* an alarm that is waited for
    [] e.op = "ring" -> LET t == Deliver([s EXCEPT !.alarm = FALSE], "ALRM") IN {[s |-> t, r |-> Died(t, <<IF s.alarm THEN "p" ELSE "z">>)]}
    \* events processed before the alarm is due, then the alarm
    [] e.op = "wait" -> UNION {IF o.s.dead # "" THEN {[s |-> o.s, r |-> Died(o.s, o.log)]}
                               ELSE LET t == Deliver([o.s EXCEPT !.alarm = FALSE], "ALRM") IN {[s |-> t, r |-> Died(t, o.log)]} : o \in Update(s)}
    [] OTHER -> {}
Inv(s) == /\ s.pend \subseteq Sigs
          /\ \A i \in Live(s) : s.cbs[i].g \in Sigs
\* a step touches only the signals and callbacks it names; a signal counts as delivered only if it was raised
StepInv(s, e, o) ==
  /\ (e.op \in {"cb", "rm", "list", "bad", "alarm"} => o.pend \subseteq s.pend /\ o.dead = "")
  /\ (e.op = "kill" => \A g \in Sigs \ {e.a[1]} : (g \in o.pend) = (g \in s.pend))
  /\ (e.op = "kill" => o.disp = s.disp /\ o.cbs = s.cbs)
  /\ (e.op \in {"handle", "ignore", "reset"} => \A g \in Sigs \ Elems(e.a[1]) : o.disp[g] = s.disp[g] /\ ((g \in o.pend) = (g \in s.pend)))
  /\ (e.op = "update" /\ o.dead = "" => Len(o.cbs) >= Len(s.cbs))
=============================================================================
