-------------------------------- MODULE Safe --------------------------------
(* Property I03: a safe interpreter on a tree of files (the tree and its operations are those of module Fs).
   f: the tree; rd, wr: the directories and files granted for reading and for writing (paths without links);
   on: whether operations are those of a safe interpreter (before that the tree is prepared without restriction);
   lock: no entry is made, renamed or removed at all. *)
EXTENDS Fs
S0 == [f |-> Init0, on |-> FALSE, rd |-> {}, wr |-> {}, lock |-> FALSE]

\* what the operation reads and changes, by the places where that really is; links: entries that are themselves acted on
Touch(s, e) ==
  LET a == e.a  op == e.op
      at(R) == IF R.t \in {"ok", "no"} THEN {R.p} ELSE {}
      there(R) == IF R.t = "ok" THEN {R.p} ELSE {}
      F(k) == UNION {at(Res(s, v, TRUE)) : v \in Alt(a[k])}
      L(k) == at(Res(s, a[k], FALSE))
      none == [r |-> {}, w |-> {}] IN
  CASE op \in {"write", "trunc", "db", "dbnew"} -> [r |-> {}, w |-> F(1)]
    [] op \in {"read", "use", "dbread"} -> [r |-> F(1), w |-> {}]
    [] op = "copy" -> [r |-> F(1), w |-> F(2) \cup L(2)]
    [] op = "rename" -> [r |-> {}, w |-> L(1) \cup L(2)]
    [] op = "remove" -> [r |-> {}, w |-> L(1)]
    [] op = "mkdir" -> [r |-> {}, w |-> L(1) \cup IF a[2] THEN {q \in DOMAIN MkAll(s, a[1], TRUE).s.n : q \notin DOMAIN s.n} ELSE {}]
    [] op = "link" -> [r |-> {}, w |-> L(2) \cup (IF a[3] THEN L(1) ELSE {})]
    [] op = "chmod" -> [r |-> {}, w |-> there(Res(s, a[1], TRUE))]
    [] op \in {"exists", "isdir", "isfile", "readable", "size", "perms", "stat", "chdir"} -> [r |-> there(Res(s, a[1], TRUE)), w |-> {}]
    [] op = "glob" -> [r |-> IF Len(a[2]) > 1 /\ Plain(a[2][1]) THEN {} ELSE there(Res(s, a[1], TRUE)), w |-> {}]   \* not listed itself
    [] op = "writable" -> [r |-> {}, w |-> there(Res(s, a[1], TRUE))]
    [] op \in {"lstat", "readlink"} -> [r |-> there(Res(s, a[1], FALSE)), w |-> {}]
    [] OTHER -> none

\* a path that is granted beyond doubt: no link and no dot in it
RECURSIVE NoLink(_, _, _)
NoLink(s, p, c) == IF c = <<>> THEN TRUE
                   ELSE LET q == Append(p, c[1]) IN c[1] \notin {".", ".."} /\ (q \in DOMAIN s.n => I(s, q).k # "l") /\ NoLink(s, q, Tail(c))
Place(s, p) == (IF p.abs THEN <<>> ELSE s.cwd) \o p.c
Plainly(s, p, G) == NoLink(s, <<>>, Place(s, p)) /\ Within(G, Place(s, p))
Strict(x, e) ==
  LET s == x.f  a == e.a  op == e.op IN
  CASE op \in {"db", "dbnew"} -> (~x.lock \/ Res(s, a[1], TRUE).t = "ok") /\ Plainly(s, a[1], x.wr)
    [] op \in {"write", "trunc", "remove", "mkdir", "chmod"} -> ~x.lock /\ Plainly(s, a[1], x.wr)
    [] op \in {"read", "use", "dbread", "exists", "isdir", "isfile", "readable", "size", "perms", "stat", "lstat", "readlink", "chdir"} -> Plainly(s, a[1], x.rd)
    [] op = "writable" -> Plainly(s, a[1], x.rd) /\ Plainly(s, a[1], x.wr)
    [] op = "glob" -> Plainly(s, a[1], x.rd) /\ \A q \in DOMAIN s.n : Under(Place(s, a[1]), q) => I(s, q).k # "l"
    [] op = "copy" -> ~x.lock /\ Plainly(s, a[1], x.rd) /\ Plainly(s, a[2], x.wr)
    [] op = "rename" -> ~x.lock /\ Plainly(s, a[1], x.wr) /\ Plainly(s, a[2], x.wr)
    [] op = "link" -> FALSE
    [] OTHER -> TRUE
Refusals(op) == {E} \cup (IF op \in {"exists", "isdir", "isfile", "readable", "writable"} THEN {B(FALSE)} ELSE {})
                    \cup (IF op = "perms" THEN {<<"s", <<"-", "--">>>>} ELSE {})
                    \cup (IF op = "glob" THEN {<<"l", <<>>>>} ELSE {})
Refuse(s, op) == {[s |-> s, r |-> r] : r \in Refusals(op)}

\* a link is made wherever its text may lead; every later access is judged by where it leads
New(s, e) ==        \* the operations that Fs does not have
  LET F == Res(s, e.a[1], TRUE)  one(t, r) == {[s |-> t, r |-> r]} IN
  CASE e.op = "use" -> UNION {LET G == Res(s, p, TRUE) IN IF G.t = "ok" /\ I(s, G.p).k = "f" /\ I(s, G.p).r THEN one(s, OK) ELSE one(s, E) : p \in Alt(e.a[1])}
    [] e.op = "db" -> IF F.t = "ok" THEN (IF I(s, F.p).d = <<"db">> THEN one(s, OK) ELSE one(s, E))
                      ELSE IF F.t = "no" /\ CanMake(s, F.p) THEN one(Add(s, F.p, File0(<<"db">>)), OK) ELSE one(s, E)
    [] e.op = "dbnew" -> IF F.t = "no" /\ CanMake(s, F.p) THEN one(Add(s, F.p, File0(<<"db">>)), OK) ELSE one(s, E)
    [] e.op = "dbread" -> IF F.t = "ok" /\ I(s, F.p).d = <<"db">> THEN one(s, OK) ELSE one(s, E)
    [] OTHER -> DoIn(s, e, {<<>>})
Act(s, e, G) == IF e.op \in {"use", "db", "dbnew", "dbread"} THEN New(s, e) ELSE DoIn(s, e, G)

Safely(x, e, strict) ==
  LET s == x.f
      T == Touch(s, e)
      inside == (\A q \in T.r : Within(x.rd, q)) /\ (\A q \in T.w : Within(x.wr, q))
  IN (IF inside THEN {o \in Act(s, e, x.rd) : x.lock => o.s.n = s.n} ELSE {}) \cup (IF strict /\ Strict(x, e) THEN {} ELSE Refuse(s, e.op))
Do(x, e) ==
  IF e.op = "grant" THEN {[s |-> [x EXCEPT !.on = TRUE, !.rd = {e.a[1][k] : k \in 1..Len(e.a[1])}, !.wr = {e.a[2][k] : k \in 1..Len(e.a[2])}, !.lock = e.a[3]], r |-> OK]}
  ELSE IF e.op = "exec" THEN {[s |-> x, r |-> E]}           \* never allowed here
  ELSE {[s |-> [x EXCEPT !.f = o.s], r |-> o.r] :
        o \in IF ~x.on \/ e.op \in {"final", "pwd"} THEN Act(x.f, e, {<<>>})
              ELSE IF e.op = "nest" THEN Safely(x, e.a[1], FALSE)     \* by an interpreter that the safe interpreter made
              ELSE Safely(x, e, TRUE)}

\* nothing outside the granted places ever changes: neither which entries there are nor what they hold (a file that has a name
\* inside as well may change through that)
Inv(x) == FsInv(x.f)
StepInv(x, e, y) ==
  x.on => /\ y.on /\ y.rd = x.rd /\ y.wr = x.wr /\ y.lock = x.lock
          /\ \A q \in (DOMAIN x.f.n) \cup (DOMAIN y.f.n) : ~Within(x.wr, q) =>
               /\ q \in DOMAIN x.f.n /\ q \in DOMAIN y.f.n /\ x.f.n[q] = y.f.n[q]
               /\ x.f.ino[x.f.n[q]] = y.f.ino[y.f.n[q]] \/ \E z \in DOMAIN x.f.n : x.f.n[z] = x.f.n[q] /\ Within(x.wr, z)
          /\ y.f.cwd = x.f.cwd \/ Within(x.rd, y.f.cwd)
          /\ x.lock => y.f.n = x.f.n
=============================================================================
