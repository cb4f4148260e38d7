-------------------------------- MODULE Chan --------------------------------
(* Property F01: a channel is a file with one position.  Contents are sequences of bytes (any tokens).  A channel has a mode, a
   position and the mark "read to the end"; what several channels do to one file at the same time is judged only where buffers
   cannot matter: `mine' tells that nobody else changed the file since the channel was opened, and `late' that a channel holds
   data it has not flushed. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Closed == [f |-> "", m |-> "", lit |-> "", pos |-> 0, eof |-> "f", late |-> FALSE, mine |-> TRUE]
Names == {"p", "q"}
\* files: name -> [is, d]; ch: the channels
Init0 == [fs |-> [n \in Names |-> [is |-> FALSE, d |-> <<>>]], ch |-> <<Closed, Closed, Closed>>]

Reads(m) == m \in {"r", "r+", "w+", "a+"}
Writes(m) == m \in {"r+", "w", "w+", "a", "a+"}
Apps(m) == m \in {"a", "a+"}
Modes == {"r", "r+", "w", "w+", "a", "a+"}

Zeros(n) == [k \in 1..n |-> "00"]
Put(d, p, x) == IF p >= Len(d) THEN d \o Zeros(p - Len(d)) \o x
                ELSE SubSeq(d, 1, p) \o x \o (IF p + Len(x) >= Len(d) THEN <<>> ELSE SubSeq(d, p + Len(x) + 1, Len(d)))
Cut(d, n) == IF n <= Len(d) THEN SubSeq(d, 1, n) ELSE d \o Zeros(n - Len(d))
Rest(d, p) == IF p >= Len(d) THEN <<>> ELSE SubSeq(d, p + 1, Len(d))
\* where the line at p ends: the place behind its newline, or the end of the file
LineEnd(d, p) == LET N == {k \in (p + 1)..Len(d) : d[k] = "0a"} IN
                 IF N = {} THEN Len(d) ELSE CHOOSE k \in N : \A j \in N : k <= j

N(n) == <<"n", <<ToString(n)>>>>
B(x) == <<"b", <<IF x THEN "true" ELSE "false">>>>
Z == <<"z", <<>>>>
Refused == {<<"e", <<>>>>, Z, N(-1), B(FALSE)}
AnyRes == Refused \cup {N(0), B(TRUE)}

Do(s, e) ==
  LET a == e.a  op == e.op
      i == IF op \in {"content", "final", "mkfile"} THEN 1 ELSE a[1]
      c == s.ch[i]
      open == c.m # ""
      d == s.fs[c.f].d
      one(t, r) == {[s |-> t, r |-> r]}
      no(R) == {[s |-> s, r |-> x] : x \in R}
      at(p, mark) == [s EXCEPT !.ch[i].pos = p, !.ch[i].eof = mark]
      shut == [s EXCEPT !.ch[i] = Closed]
      \* the file of channel i becomes x and its position p
      chg(t, f, x) == [t EXCEPT !.fs[f] = [is |-> TRUE, d |-> x],
                              !.ch = [k \in 1..3 |-> IF k # i /\ t.ch[k].f = f /\ t.ch[k].m # "" THEN [t.ch[k] EXCEPT !.mine = FALSE] ELSE t.ch[k]]]
      wr(x) == LET p == IF Apps(c.m) THEN Len(d) ELSE c.pos IN
               [chg(s, c.f, IF x = <<>> THEN d ELSE Put(d, p, x)) EXCEPT
                  !.ch[i].pos = IF x = <<>> THEN c.pos ELSE p + Len(x), !.ch[i].eof = IF c.eof \in {"t", "x"} THEN "x" ELSE "u", !.ch[i].late = TRUE]
      \* the end was reached before truncate extended the file: a seek may be needed to read on
      stuck == IF c.eof = "x" THEN {[s |-> s, r |-> Z]} ELSE {}
  IN
  CASE op = "mkfile" -> one([s EXCEPT !.fs[a[1]] = [is |-> TRUE, d |-> a[2]]], <<"ok", <<>>>>)      \* only at the start
    [] op = "content" ->   \* what another process would read; judged when nothing is waiting to be flushed
         IF \E k \in 1..3 : s.ch[k].f = a[1] /\ s.ch[k].late THEN one(s, <<"-", <<>>>>)
         ELSE one(s, IF s.fs[a[1]].is THEN <<"s", s.fs[a[1]].d>> ELSE Z)
    [] op = "final" -> one(s, IF s.fs[a[1]].is THEN <<"s", s.fs[a[1]].d>> ELSE Z)                   \* after the end of the process
    [] op = "open" ->      \* channel, file, mode, how ("new": a new channel; "re": the open function of the one there), how the mode is written
         LET f == a[2]  m == a[3]
             t == shut      \* the channel it had is closed first
             was == s.fs[f] IN
         IF a[4] = "new" /\ (m \notin Modes \/ (m \in {"r", "r+"} /\ ~was.is)) THEN one(s, <<"e", <<>>>>)   \* no new channel: the old one stays
         ELSE IF m \notin Modes \/ (m \in {"r", "r+"} /\ ~was.is) THEN {[s |-> t, r |-> x] : x \in {<<"e", <<>>>>, B(FALSE)}}
         ELSE LET u == IF m \in {"w", "w+"} THEN chg(t, f, <<>>) ELSE [t EXCEPT !.fs[f].is = TRUE] IN
              one([u EXCEPT !.ch[i] = [f |-> f, m |-> m, lit |-> a[5], pos |-> IF m = "a" THEN Len(was.d) ELSE 0, eof |-> "f", late |-> FALSE, mine |-> TRUE]], B(TRUE))
    [] op = "close" -> IF open THEN one(shut, B(TRUE)) ELSE no(AnyRes)
    [] op = "drop" -> one(shut, B(TRUE))             \* the last reference goes away
    [] op = "mode" -> IF open THEN one(s, <<"s", <<c.lit>>>>) ELSE no(Refused \cup {<<"s", <<"">>>>})
    [] op = "filename" -> IF open THEN one(s, <<"s", <<c.f>>>>) ELSE no(Refused)
    [] ~open -> no(Refused \cup (IF op = "write" THEN {N(0)} ELSE IF op \in {"eof"} THEN {B(TRUE)} ELSE {}))
    [] op = "read" ->      \* a[2]: how many; negative: all
         IF ~Reads(c.m) THEN no(Refused)
         ELSE IF a[2] = 0 THEN no({Z, <<"s", <<>>>>})
         ELSE LET r == Rest(d, c.pos)
                  n == IF a[2] < 0 \/ a[2] > Len(r) THEN Len(r) ELSE a[2]
                  t == at(c.pos + n, IF a[2] < 0 \/ a[2] > Len(r) THEN "t" ELSE "f") IN
              stuck \cup one(t, IF n = 0 THEN Z ELSE <<"s", SubSeq(r, 1, n)>>)
    [] op = "gets" ->
         IF ~Reads(c.m) THEN no(Refused)
         ELSE IF c.pos >= Len(d) THEN one(at(c.pos, "t"), Z)
         ELSE LET z == LineEnd(d, c.pos)  nl == d[z] = "0a" IN
              stuck \cup one(at(z, IF nl THEN "f" ELSE "t"), <<"s", SubSeq(d, c.pos + 1, IF nl THEN z - 1 ELSE z)>>)
    [] op = "write" -> IF ~Writes(c.m) THEN no(Refused \cup {N(0)}) ELSE one(wr(a[2]), N(Len(a[2])))
    [] op = "puts" -> IF ~Writes(c.m) THEN no(Refused) ELSE one(wr(a[2] \o <<"0a">>), B(TRUE))
    [] op = "seek" ->      \* offset, whence
         LET p == a[2] + (CASE a[3] = "set" -> 0 [] a[3] = "cur" -> c.pos [] a[3] = "end" -> Len(d) [] OTHER -> 0) IN
         IF a[3] \notin {"set", "cur", "end"} THEN no(Refused)
         ELSE IF p < 0 THEN no(Refused) ELSE one(at(p, "f"), N(0))
    [] op = "tell" -> one(s, N(c.pos))
    [] op = "eof" -> \* true when a read came to the end; after a write either answer
         no(CASE c.eof = "t" -> {B(TRUE)} [] c.eof = "f" -> {B(FALSE)} [] OTHER -> {B(TRUE), B(FALSE)})
    [] op = "trunc" ->
         IF ~Writes(c.m) \/ a[2] < 0 THEN no(Refused) ELSE one([chg(s, c.f, Cut(d, a[2])) EXCEPT !.ch[i].eof = IF c.eof \in {"t", "x"} THEN "x" ELSE "u"], N(0))
    [] op = "flush" -> {[s |-> [s EXCEPT !.ch[i].late = FALSE], r |-> x] : x \in IF Writes(c.m) THEN {N(0)} ELSE AnyRes}

Inv(s) == \A i \in 1..3 : LET c == s.ch[i] IN
            /\ c.m = "" => c = Closed
            /\ c.m # "" => s.fs[c.f].is /\ c.pos >= 0
            /\ c.late => Writes(c.m)
\* an operation on one channel leaves the position of every other as it is, and a file changes only through a channel that may
\* write it; what is written is read back
StepInv(s, e, t) ==
  /\ e.op \notin {"mkfile", "content", "final"} =>
       /\ \A k \in 1..3 : k # e.a[1] => [t.ch[k] EXCEPT !.mine = TRUE] = [s.ch[k] EXCEPT !.mine = TRUE]
       /\ \A n \in Names : t.fs[n] # s.fs[n] => (e.op = "open" /\ n = e.a[2]) \/ (s.ch[e.a[1]].f = n /\ Writes(s.ch[e.a[1]].m) /\ e.op \in {"write", "puts", "trunc"})
       /\ e.op = "write" /\ Writes(s.ch[e.a[1]].m) /\ e.a[2] # <<>> =>
            LET c == t.ch[e.a[1]] IN SubSeq(t.fs[c.f].d, c.pos - Len(e.a[2]) + 1, c.pos) = e.a[2]
  /\ \A n \in Names : s.fs[n].is => t.fs[n].is
=============================================================================
