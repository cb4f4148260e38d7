--------------------------------- MODULE Opts ---------------------------------
\* Options of scripts: getOpts, parseOpts, moduleOpts and moduleRun.
\* A value: [t |-> n number, s string, b boolean, z null, u undefined, a array, m object; x |-> its text, h |-> its number in halves]
\* The state: o  the table of defaults, c  the settings to use, z  the object that gets the options (each a map from keys to values),
\*            fz  z is frozen: keys can be neither added, nor removed, nor read when missing
EXTENDS Integers, Sequences, FiniteSets
KeyOrder == <<"Assert", "Debug", "Test", "Trace", "a", "b", "l", "n", "s", "t", "u">>
Keys == {KeyOrder[j] : j \in 1..Len(KeyOrder)}
Logs == {"Debug", "Test", "Trace", "Assert"}
V(t, x, h) == [t |-> t, x |-> x, h |-> h]
Undef == V("u", "", 0)
None == [x \in {} |-> Undef]
S0 == [o |-> None, c |-> None, z |-> None, fz |-> FALSE]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Over(m, w) == [x \in DOMAIN m \cup DOMAIN w |-> IF x \in DOMAIN w THEN w[x] ELSE m[x]]
RECURSIVE MapOf(_)
MapOf(kvs) == IF kvs = <<>> THEN None ELSE Put(MapOf(SubSeq(kvs, 1, Len(kvs) - 1)), kvs[Len(kvs)].k, kvs[Len(kvs)].v)
ListOf(m) == LET I == SelectSeq(KeyOrder, LAMBDA k : k \in DOMAIN m) IN [j \in 1..Len(I) |-> [k |-> I[j], v |-> m[I[j]]]]

Strict == {"n", "s", "b"}       \* a default of these types only takes values of its type
\* the value v given for option k of table o: none when refused
Given(o, k, v, mod) ==
  IF v.t = "u" THEN <<>>
  ELSE LET t == IF mod /\ k \in Logs THEN "b" ELSE IF k \in DOMAIN o THEN o[k].t ELSE "none" IN
    CASE t = "none" -> <<>>
      [] t = "b" -> IF v.t = "b" THEN <<v>> ELSE IF v.t = "n" /\ v.h \in {0, 2} THEN <<V("b", IF v.h = 2 THEN "true" ELSE "false", 0)>> ELSE <<>>
      [] t \in Strict -> IF v.t = t THEN <<v>> ELSE <<>>
      [] OTHER -> <<v>>
\* self with the options: [ok, z]
Use(o, c, z, fz, mod) ==
  LET bad == \E k \in DOMAIN c : Given(o, k, c[k], mod) = <<>>
      new == Over(Over(o, z), [k \in DOMAIN c |-> Given(o, k, c[k], mod)[1]])
  IN IF bad THEN [ok |-> FALSE, z |-> z]
     ELSE IF fz /\ DOMAIN new # DOMAIN z THEN [ok |-> FALSE, z |-> z]
     ELSE [ok |-> TRUE, z |-> new]

\* the arguments of a script: what a text stands for
Conv(v) == IF v.t # "s" THEN v ELSE
  CASE v.x \in {"true", "TRUE", "True", "t", "tru"} -> V("b", "true", 0)
    [] v.x \in {"false", "FALSE", "f", "fal"} -> V("b", "false", 0)
    [] v.x = "5" -> V("n", "", 10)
    [] v.x = "0" -> V("n", "", 0)
    [] v.x = "1" -> V("n", "", 2)
    [] v.x = "-5" -> V("n", "", -10)
    [] v.x = "1.5" -> V("n", "", 3)
    [] v.x = "-0.5" -> V("n", "", -1)
    [] v.x = "0x10" -> V("n", "", 32)
    [] v.x = "1e1" -> V("n", "", 20)
    [] v.x = "null" -> V("z", "", 0)
    [] OTHER -> v
Dash(v) == \/ v.t = "n" /\ v.h < 0
           \/ v.t = "s" /\ (v.x \in {"-", "--", "-5", "-0.5", "-q", "--a", "-h", "-A", "-Trace", "-as"} \/ \E k \in Keys : v.x = "-" \o k)
Name(v) == IF \E k \in Keys \cup Logs : v.x = "-" \o k THEN CHOOSE k \in Keys \cup Logs : v.x = "-" \o k ELSE "?"
\* [ok, conf, rest]
RECURSIVE Args(_, _)
Args(as, conf) ==
  IF as = <<>> THEN [ok |-> TRUE, conf |-> conf, rest |-> <<>>]
  ELSE IF as[1].t = "s" /\ as[1].x = "--" THEN [ok |-> TRUE, conf |-> conf, rest |-> Tail(as)]
  ELSE IF ~Dash(as[1]) THEN [ok |-> TRUE, conf |-> conf, rest |-> as]
  ELSE IF Len(as) = 1 THEN [ok |-> FALSE, conf |-> conf, rest |-> <<>>]
  ELSE LET v == Conv(as[2])
           k == Name(as[1]) IN
    Args(SubSeq(as, 3, Len(as)), Put(conf, k, v))

R(k, rest, m) == [k |-> k, rest |-> rest, v |-> ListOf(m)]
Ok == R("ok", <<>>, None)
Err == R("err", <<>>, None)
Val(v) == R("ok", <<v>>, None)
Of(s, w) == IF w = "o" THEN s.o ELSE IF w = "c" THEN s.c ELSE s.z
Set(s, w, m) == IF w = "o" THEN [s EXCEPT !.o = m] ELSE IF w = "c" THEN [s EXCEPT !.c = m] ELSE [s EXCEPT !.z = m]
\* an operation: a = <<which object or way of calling, keys and values, values>>
Do(s, e) ==
  LET w == e.a[1]
      m == Of(s, w)
      fz == w = "z" /\ s.fz
      k == e.a[2][1].k
      one(st, r) == {[s |-> st, r |-> r]}
      take(c, z, zf, mod) == LET u == Use(s.o, c, z, zf, mod) IN
          IF u.ok THEN one([s EXCEPT !.z = u.z, !.fz = TRUE], R("ok", <<>>, u.z)) ELSE one(s, Err)
  IN CASE e.op = "new" -> one([Set(s, w, MapOf(e.a[2])) EXCEPT !.fz = IF w = "z" THEN FALSE ELSE @], Ok)
       [] e.op = "put" -> IF fz /\ k \notin DOMAIN m THEN one(s, Err) ELSE one(Set(s, w, Put(m, k, e.a[2][1].v)), Ok)
       [] e.op = "inc" -> IF k \notin DOMAIN m \/ (k \in DOMAIN m /\ m[k].t # "n") THEN one(s, Err)
                          ELSE LET v == V("n", "", m[k].h + 2) IN one(Set(s, w, Put(m, k, v)), Ok)
       [] e.op = "del" -> IF fz THEN one(s, Err) ELSE one(Set(s, w, Del(m, k)), Ok)
       [] e.op = "read" -> IF k \in DOMAIN m THEN one(s, Val(m[k])) ELSE IF fz THEN one(s, Err) ELSE one(s, Val(Undef))
       [] e.op = "has" -> one(s, Val(V("b", IF k \in DOMAIN m THEN "true" ELSE "false", 0)))
       [] e.op = "dump" -> one(s, R("ok", <<>>, m))
       [] e.op = "get" ->
            CASE w = "get" -> take(s.c, None, FALSE, FALSE)                       \* getOpts(o, c)
              [] w \in {"getz", "parse"} -> take(s.c, s.z, s.fz, FALSE)           \* getOpts(o, c, z), parseOpts(z, o, c)
              [] w = "parse0" -> take(None, s.z, s.fz, FALSE)                     \* parseOpts(z, o, null)
              [] w = "mod" -> take(s.c, None, FALSE, TRUE)                        \* moduleOpts(o) in a function called with (x, c)
              [] w \in {"modz", "modzc"} -> take(s.c, s.z, s.fz, TRUE)            \* moduleOpts(o, z) in such a function, or moduleOpts(o, z, c)
              [] w = "mod0" -> take(None, None, FALSE, TRUE)                      \* moduleOpts(o) without settings
              [] OTHER -> take(None, s.z, s.fz, TRUE)                             \* modz0: moduleOpts(o, z, null)
       [] e.op = "run" ->      \* a module function that calls moduleOpts(o), or moduleOpts(o, z) when w is "z" or "nz"
            LET p == Args(e.a[3], None)
                own == w \in {"f", "n"}
                u == Use(s.o, p.conf, IF own THEN None ELSE s.z, ~own /\ s.fz, TRUE)
            IN IF ~p.ok \/ ~u.ok THEN one(s, Err)
               ELSE one([s EXCEPT !.z = u.z, !.fz = TRUE], R("ok", p.rest, u.z))
       [] OTHER -> {}
Inv(s) == s.fz \in BOOLEAN
\* the table and the settings are never changed by using them; self changes only when that succeeded, keeps what it had, has every option, and keeps
\* its other options' defaults or values
StepInv(s, e, s2) ==
  e.op \in {"get", "run"} =>
    /\ s2.o = s.o /\ s2.c = s.c
    /\ s2.z # s.z => s2.fz /\ DOMAIN s.o \subseteq DOMAIN s2.z
    /\ s2.z # s.z => \A k \in DOMAIN s2.z : (s2.z[k].t # "u" /\ k \in DOMAIN s.o /\ s.o[k].t \in Strict /\ k \notin DOMAIN s.z \cup Logs) => s2.z[k].t = s.o[k].t
================================================================================
