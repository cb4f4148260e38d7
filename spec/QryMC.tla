------------------------------ MODULE QryMC ------------------------------
(* Every short history of the operations over two rows and awkward values. *)
EXTENDS Qry
CONSTANTS MaxDepth, Emit
VARIABLES s, hist
I0 == {Init0}
Canon(st) == st
Vals == {<<"n", "5", TRUE>>, <<"n", "2.5", FALSE>>, <<"s", <<>>>>, <<"s", <<"'", "\"", ",">>>>, <<"s", <<"<", "\n", "\\">>>>, <<"z">>, <<"b", TRUE>>}
Opts == {[hdr |-> h, lim |-> l, sep |-> <<",">>, nul |-> n] : h \in BOOLEAN, l \in {0, 1}, n \in {<<>>, <<"z">>}}
SmallOps(st) ==
  {[op |-> "ins", a |-> <<f, k, v, <<"b", FALSE>>>>] : f \in {0, 3}, k \in 1..2, v \in Vals}
  \cup {[op |-> "upd", a |-> <<4, 1, v>>] : v \in Vals}
  \cup {[op |-> "del", a |-> <<1, 1>>]}
  \cup {[op |-> "q", a |-> <<m, 1, o>>] : m \in {"rows", "arrays", "array1d", "json", "json2", "list", "tabs", "csv", "html", "insert"}, o \in Opts}
  \cup {[op |-> "cb", a |-> <<1, l, x>>] : l \in 0..1, x \in 0..1}
  \cup {[op |-> o, a |-> <<1>>] : o \in {"nest", "one", "ex", "func", "usef", "type", "copy", "csv", "coll", "bad"}}
  \cup {[op |-> "fi", a |-> <<b>>] : b \in BOOLEAN}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
