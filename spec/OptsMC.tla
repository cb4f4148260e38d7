-------------------------------- MODULE OptsMC --------------------------------
(* every table of a few options, every settings object and every self of a few keys, every way to use them, and every short
   argument list of a module *)
EXTENDS Opts, TLC
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {S0}
KV(k, v) == [k |-> k, v |-> v]
n1 == V("n", "", 2)
n7 == V("n", "", 14)
sx == V("s", "x", 0)
sy == V("s", "5", 0)
bt == V("b", "true", 0)
bf == V("b", "false", 0)
zz == V("z", "", 0)
uu == V("u", "", 0)
al == V("a", "[1]", 0)
T(x) == V("s", x, 0)
B(o, w, kvs, as) == [op |-> o, a |-> <<w, kvs, as>>]
Tables == {<<>>, <<KV("a", n1), KV("b", bf)>>, <<KV("n", zz), KV("s", sx), KV("l", al)>>, <<KV("a", n1), KV("s", sx), KV("u", uu)>>} \cup
   (IF Big THEN {<<KV("Debug", n1), KV("a", n1)>>, <<KV("b", bt), KV("s", sy), KV("n", zz)>>} ELSE {})
Confs == {<<>>, <<KV("a", n7)>>, <<KV("a", n7), KV("s", n7)>>, <<KV("b", n1)>>, <<KV("b", n7)>>, <<KV("n", n7), KV("l", bt)>>, <<KV("u", al), KV("s", sy)>>, <<KV("Debug", bt)>>,
          <<KV("a", zz)>>, <<KV("a", uu)>>} \cup (IF Big THEN {<<KV("Debug", n7)>>, <<KV("a", sy)>>, <<KV("t", n1)>>, <<KV("l", zz), KV("a", n7)>>} ELSE {})
Selfs == {<<>>, <<KV("a", sx)>>, <<KV("s", n7), KV("t", n1)>>}
Ws == {"get", "getz", "parse", "parse0", "mod", "modz", "modzc", "mod0", "modz0"}
Texts == {"x", "5", "true", "-", "--", "-a", "-s", "-b", "-q", "null"} \cup (IF Big THEN {"-5", "0x10", "f", "-n", "-Debug"} ELSE {})
Lists == {<<>>} \cup {<<T(x)>> : x \in Texts} \cup {<<T(x), T(y)>> : x, y \in Texts} \cup
         {<<T(x), T(y), T(z)>> : x \in {"-a", "-s", "--"}, y \in {"x", "5", "--"}, z \in {"-a", "x", "--"}}
         \cup {<<T(x), T(y), T(x), T(z)>> : x \in {"-a", "-s"}, y \in {"x", "5"}, z \in {"x", "1.5"}}
SmallOps(st) ==
  IF st.o = None /\ st.c = None /\ ~st.fz THEN {B("new", "o", kvs, <<>>) : kvs \in Tables \ {<<>>}} \cup {B("get", w, <<>>, <<>>) : w \in Ws}
  ELSE IF st.c = None /\ st.z = None /\ ~st.fz THEN
     {B("new", "c", kvs, <<>>) : kvs \in Confs \ {<<>>}} \cup {B("run", w, <<>>, as) : w \in {"f", "n"}, as \in Lists} \cup {B("get", w, <<>>, <<>>) : w \in Ws}
  ELSE IF ~st.fz THEN
     (IF st.z = None THEN {B("new", "z", kvs, <<>>) : kvs \in Selfs} ELSE {}) \cup {B("get", w, <<>>, <<>>) : w \in Ws} \cup {B("run", "z", <<>>, as) : as \in {<<>>, <<T("-a"), T("5")>>, <<T("-s"), T("x"), T("y")>>}}
  ELSE {B("put", "z", <<KV(k, v)>>, <<>>) : k \in {"a", "t"}, v \in {n7, sx}} \cup {B(o, "z", <<KV(k, uu)>>, <<>>) : o \in {"inc", "del", "read", "has"}, k \in {"a", "t"}}
     \cup {B("inc", w, <<KV("a", uu)>>, <<>>) : w \in {"o", "c"}} \cup {B("del", "o", <<KV("a", uu)>>, <<>>)} \cup {B("dump", w, <<>>, <<>>) : w \in {"o", "c"}}
     \cup {B("get", w, <<>>, <<>>) : w \in {"getz", "parse0", "modz"}}
Canon(x) == x
INSTANCE Explore WITH InitSet <- I0
=============================================================================
