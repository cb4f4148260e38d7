--------------------------------- MODULE Obj ---------------------------------
(* Objects.  State: four registers naming objects in a heap.  An object has its own properties (a map from
   keys to scalar tokens), a prototype (0: none), how it is frozen ("no", or the set of what its mode forbids or
   checks), and whether it was created with the accessor property z, which reads and writes _z.
   An operation returns [ret, the printed form of every register].                                       *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
\* the keys in use, in the order in which objects list them
KeySeq == <<"", "10", "5", "9", "A", "_p", "_z", "a", "a b", "aa", "b", "c", "z">>
KeySet == TLCEval({KeySeq[i] : i \in 1..Len(KeySeq)})
Order(S) == SelectSeq(KeySeq, LAMBDA k : k \in S)
Regs == 1..4
Empty == [k \in {} |-> "u"]
NewObj == [own |-> Empty, proto |-> 0, frozen |-> FALSE, modify |-> TRUE, check |-> FALSE, acc |-> FALSE]
Init0 == [reg |-> <<1, 2, 3, 4>>, heap |-> <<NewObj, NewObj, NewObj, NewObj>>]

Body(v) == SubSeq(v, 2, Len(v))
Bool(b) == IF b THEN "bT" ELSE "bF"
Ob(s, id) == s.heap[id]
Shown(o) == SelectSeq(Order(DOMAIN o.own), LAMBDA k : o.own[k] # "u")
\* printed form: own properties that are defined, in order
Disp(o) == <<"{">> \o FlattenSeq([i \in 1..Len(Shown(o)) |-> <<"k" \o Shown(o)[i], o.own[Shown(o)[i]]>>]) \o <<"}">>
Dump(s) == [i \in Regs |-> Disp(Ob(s, s.reg[i]))]
ResT(s, toks) == [s |-> s, r |-> <<toks>> \o Dump(s)]
Res(s, t) == ResT(s, <<t>>)
Err(s) == Res(s, "!")

RECURSIVE Chain(_, _)
Chain(s, id) == IF id = 0 THEN <<>> ELSE <<id>> \o Chain(s, Ob(s, id).proto)

\* reading: "none" when neither the object nor a prototype has it; the accessor reads _z of the object that has the accessor
RECURSIVE Look(_, _, _)
Look(s, id, k) ==
  IF id = 0 THEN "none"
  ELSE LET o == Ob(s, id) IN
       IF k \in DOMAIN o.own THEN o.own[k]
       ELSE IF o.acc /\ k = "z"
            THEN LET v == Look(s, id, "_z") IN IF v # "none" THEN v ELSE IF o.frozen /\ o.check THEN "none" ELSE "u"
       ELSE Look(s, o.proto, k)
Get(s, id, k) == LET v == Look(s, id, k) o == Ob(s, id) IN
                 IF v # "none" THEN v ELSE IF o.frozen /\ o.check THEN "!" ELSE "u"

\* writing: [ok, s]
Put(s, id, k, v) == LET o == Ob(s, id) IN
  IF o.frozen /\ (~o.modify \/ k \notin DOMAIN o.own) THEN [ok |-> FALSE, s |-> s]
  ELSE [ok |-> TRUE, s |-> [s EXCEPT !.heap[id].own = (k :> v) @@ @]]
Set(s, id, k, v) ==
  IF Ob(s, id).acc /\ k = "z" THEN IF v = "u" THEN [ok |-> FALSE, s |-> s] ELSE Put(s, id, "_z", v) ELSE Put(s, id, k, v)
RECURSIVE SetAll(_, _, _, _)
SetAll(st, id, ks, m) == IF ks = <<>> \/ ~st.ok THEN st ELSE SetAll(Set(st.s, id, ks[1], m[ks[1]]), id, Tail(ks), m)
RECURSIVE AssignAll(_, _, _)
AssignAll(st, id, srcs) ==
  IF srcs = <<>> \/ ~st.ok THEN st
  ELSE LET m == Ob(st.s, srcs[1]).own IN AssignAll(SetAll(st, id, Order(DOMAIN m), m), id, Tail(srcs))

New(s, x, o) == [s EXCEPT !.heap = Append(@, o), !.reg[x] = Len(s.heap) + 1]
Out(st, x) == IF st.ok THEN Res(st.s, x) ELSE Err(st.s)

RECURSIVE AllKeys(_, _)
AllKeys(s, ids) == IF ids = <<>> THEN <<>>
                   ELSE LET rest == AllKeys(s, SubSeq(ids, 1, Len(ids) - 1)) IN
                        rest \o SelectSeq(Order(DOMAIN Ob(s, ids[Len(ids)]).own), LAMBDA k : ~\E i \in 1..Len(rest) : rest[i] = k)
RECURSIVE Pairs(_)
Pairs(ps) == IF ps = <<>> THEN Empty ELSE (ps[Len(ps)][1] :> ps[Len(ps)][2]) @@ Pairs(SubSeq(ps, 1, Len(ps) - 1))
IsNum(v) == SubSeq(v, 1, 1) = "n"
NumVals == TLCEval([v \in {"n" \o ToString(i) : i \in -300..300} |-> CHOOSE i \in -300..300 : "n" \o ToString(i) = v])
Inc(v, d) == "n" \o ToString(NumVals[v] + d)
HasPrefixKeys(ks) == [i \in 1..Len(ks) |-> "k" \o ks[i]]

Do(s, e) ==
  LET a == e.a
      x == s.reg[a[1]]
      o == Ob(s, x)
  IN
  CASE e.op = "reset" -> {Res(Init0, "u")}
    [] e.op = "lit" -> {Res(New(s, a[1], [NewObj EXCEPT !.own = Pairs(a[2]), !.acc = a[3]]), "u")}
    [] e.op = "alias" -> {Res([s EXCEPT !.reg[a[1]] = s.reg[a[2]]], "u")}
    [] e.op = "get" -> {Res(s, Get(s, x, a[2]))}
    [] e.op = "set" -> {Out(Set(s, x, a[2], a[3]), "u")}
    [] e.op = "del" -> IF o.frozen THEN {Err(s)}
                       ELSE {Res([s EXCEPT !.heap[x].own = [k \in DOMAIN @ \ {a[2]} |-> @[k]]], "u")}
    [] e.op \in {"in", "own", "enum"} -> {Res(s, Bool(a[2] \in DOMAIN o.own))}
    [] e.op \in {"keys", "forin"} -> {ResT(s, HasPrefixKeys(AllKeys(s, Chain(s, x))))}
    \* for-in during whose first turn the keys a[2] are deleted: they are not visited afterwards, unless a prototype has them
    [] e.op = "forind" ->
         LET ks == AllKeys(s, Chain(s, x))
             t == [s EXCEPT !.heap[x].own = [k \in DOMAIN @ \ {a[2][i] : i \in 1..Len(a[2])} |-> @[k]]]
             left == AllKeys(t, Chain(t, x))
         IN IF ks = <<>> THEN {ResT(s, <<>>)}
            ELSE IF o.frozen /\ a[2] # <<>> THEN {Err(s)}
            ELSE {ResT(t, HasPrefixKeys(<<ks[1]>> \o SelectSeq(Tail(ks), LAMBDA k : \E i \in 1..Len(left) : left[i] = k)))}
    [] e.op = "values" -> LET ks == Order(DOMAIN o.own) IN {ResT(s, [i \in 1..Len(ks) |-> o.own[ks[i]]])}
    [] e.op = "length" -> {Res(s, "n" \o ToString(Cardinality(DOMAIN o.own)))}
    \* ++ and -- (of a property that holds a number), before or after
    [] e.op = "incr" ->
         LET v == Get(s, x, a[2]) IN
         IF v = "!" THEN {Err(s)} ELSE IF ~IsNum(v) THEN {Res(s, "skip")}
         ELSE {Out(Set(s, x, a[2], Inc(v, a[3])), IF a[4] = "pre" THEN Inc(v, a[3]) ELSE v)}
    [] e.op = "add" ->
         LET v == Get(s, x, a[2]) IN
         IF v = "!" THEN {Err(s)} ELSE IF ~IsNum(v) THEN {Res(s, "skip")} ELSE {Out(Set(s, x, a[2], Inc(v, a[3])), Inc(v, a[3]))}
    [] e.op = "copy" -> LET v == Get(s, s.reg[a[3]], a[4]) IN IF v = "!" THEN {Err(s)} ELSE {Out(Set(s, x, a[2], v), "u")}
    \* a variable that took the value of a property is on its own
    [] e.op = "var" -> LET v == Get(s, x, a[2]) IN
                       IF v = "!" THEN {Err(s)} ELSE {Res(s, IF IsNum(v) THEN Inc(v, 1) ELSE v)}
    [] e.op = "create" ->    \* new object whose prototype is register a[2], with the properties of a[3]
         {Res(New(s, a[1], [NewObj EXCEPT !.proto = s.reg[a[2]], !.own = Pairs(a[3])]), "u")}
    \* register a[2] names the prototype of a new function, a[1] an object constructed by it
    [] e.op = "newf" -> LET s1 == New(s, a[2], NewObj) IN
                        {Res(New(s1, a[1], [NewObj EXCEPT !.proto = s1.reg[a[2]], !.own = Pairs(a[3])]), "u")}
    [] e.op = "setproto" ->
         IF x \in {Chain(s, s.reg[a[2]])[i] : i \in 1..Len(Chain(s, s.reg[a[2]]))} THEN {Err(s)}
         ELSE {Res([s EXCEPT !.heap[x].proto = s.reg[a[2]]], "u")}
    [] e.op = "isproto" -> {Res(s, Bool(\E i \in 2..Len(Chain(s, s.reg[a[2]])) : Chain(s, s.reg[a[2]])[i] = x))}
    [] e.op = "getproto" -> {ResT(s, [i \in Regs |-> Bool(o.proto = s.reg[i])])}
    [] e.op = "same" -> {ResT(s, [i \in Regs |-> Bool(x = s.reg[i])])}
    [] e.op = "assign" -> {Out(AssignAll([ok |-> TRUE, s |-> s], x, [i \in 1..Len(a[2]) |-> s.reg[a[2][i]]]), "u")}
    [] e.op = "merge" -> {Res(New(s, a[2], [NewObj EXCEPT !.own = Ob(s, s.reg[a[3]]).own @@ o.own]), "u")}
    [] e.op = "freeze" -> {Res([s EXCEPT !.heap[x].frozen = a[2], !.heap[x].modify = a[3], !.heap[x].check = a[4]], "u")}
    [] OTHER -> {}

Inv(s) == /\ \A i \in 1..Len(s.heap) : DOMAIN s.heap[i].own \subseteq KeySet
          /\ \A i \in 1..Len(s.heap) : Len(Chain(s, i)) <= Len(s.heap)        \* no cycles
          /\ \A i \in 1..Len(s.heap) : (s.heap[i].acc => "z" \notin DOMAIN s.heap[i].own)
\* laws of a step: a frozen object keeps its keys (and its contents, where its mode says so), and nothing but the object
\* the operation names changes
StepInv(s, e, t) ==
  /\ \A i \in 1..Len(s.heap) :
       (s.heap[i].frozen /\ e.op # "reset" =>
          /\ DOMAIN t.heap[i].own = DOMAIN s.heap[i].own
          /\ (~s.heap[i].modify => t.heap[i].own = s.heap[i].own))
  /\ (e.op # "reset" => \A i \in 1..Len(s.heap) : i # s.reg[e.a[1]] => t.heap[i] = s.heap[i])
  /\ (e.op \in {"get", "in", "own", "enum", "keys", "forin", "values", "length", "isproto", "getproto", "same"} => t = s)
=============================================================================
