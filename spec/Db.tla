------------------------------- MODULE Db -------------------------------
(* Property D01: transaction(), eval, query, onecolumn and import of the Sqlite module on several
   connections to one database file, nested to any depth, with failures at every place: thrown
   errors, constraint violations, violations found at commit, a commit hook that refuses, locks held
   by other connections, the death of the process.

   disk      what is committed: <<value of key 1, 2, 3 (0: no such row), dangling reference (0/1)>>
   con[c]    stk  the contents at the start of each open transaction level
             lvl  0 nothing locked, 1 shared, 2 reserved, 4 exclusive
             v    the contents as this connection sees them (meaningful while lvl > 0)
             rd   queries whose callback is running
             hook what the commit hook does: 0 none, 1 accept, 2 refuse, 3 throw
             busy -1 none, n the busy callback asks for n retries

   The rules of locking are those of a rollback journal (many readers or one writer; a writer commits
   only when there is no other reader).  A program is a tree of actions; Run performs it and gives the new state,
   the log (one entry for each thing seen) and what is being thrown: "" nothing, "T" an error of the script,
   "L" locked, "F" foreign key, "N" not null, "K" commit hook, "W" malformed import, "!" the process is gone. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Con0 == [stk |-> <<>>, lvl |-> 0, v |-> <<0, 0, 0, 0>>, rd |-> 0, hook |-> 0, busy |-> -1]
NC == 3
Init0 == [disk |-> <<0, 0, 0, 0>>, con |-> [c \in 1..NC |-> Con0]]

See(s, c) == IF s.con[c].lvl = 0 THEN s.disk ELSE s.con[c].v
Others(s, c, l) == \E d \in 1..NC : d # c /\ s.con[d].lvl >= l
InTx(s, c) == s.con[c].stk # <<>>
Busy(s, c) == [i \in 1..(s.con[c].busy + 1) |-> "b"]
\* the lock l is taken; all levels opened before saw the contents of this moment
Take(s, c, l) ==
  IF s.con[c].lvl = 0
  THEN [s EXCEPT !.con[c].lvl = l, !.con[c].v = s.disk, !.con[c].stk = [i \in 1..Len(s.con[c].stk) |-> s.disk]]
  ELSE IF s.con[c].lvl >= l THEN s ELSE [s EXCEPT !.con[c].lvl = l]
\* no transaction and no running query: nothing stays locked
Drop(s, c) == IF InTx(s, c) \/ s.con[c].rd > 0 THEN s ELSE [s EXCEPT !.con[c].lvl = 0, !.con[c].v = <<0, 0, 0, 0>>]

R(s, log, t) == [s |-> s, log |-> log, t |-> t]

Rollback(s, c) == Drop([s EXCEPT !.con[c].stk = <<>>], c)
\* end of the outermost level: all or nothing
Commit(s, c) ==
  LET k == s.con[c] IN
  IF k.lvl < 2 THEN R(Drop([s EXCEPT !.con[c].stk = <<>>], c), <<>>, "")
  ELSE IF k.v[4] = 1 THEN R(Rollback(s, c), <<>>, "F")
  ELSE IF Others(s, c, 1) THEN R(Rollback(s, c), Busy(s, c), "L")
  ELSE IF k.hook >= 2 THEN R(Rollback(s, c), <<"h">>, "K")
  ELSE R([Drop([s EXCEPT !.con[c].stk = <<>>], c) EXCEPT !.disk = k.v], IF k.hook = 1 THEN <<"h">> ELSE <<>>, "")

ReadLock(s, c) ==
  IF s.con[c].lvl >= 1 THEN R(s, <<>>, "")
  ELSE IF Others(s, c, 4) THEN R(s, Busy(s, c), "L")
  ELSE R(Take(s, c, 1), <<>>, "")
WriteLock(s, c) ==
  IF s.con[c].lvl >= 2 THEN R(s, <<>>, "")
  ELSE IF Others(s, c, 2) THEN R(s, IF s.con[c].lvl = 0 THEN Busy(s, c) ELSE <<>>, "L")
  ELSE R(Take(s, c, 2), <<>>, "")

\* a statement on its own is a transaction of its own
Auto(s, c, r) ==          \* r: the state after the statement's work
  IF InTx(s, c) THEN r
  ELSE IF r.t # "" THEN R(Rollback(r.s, c), r.log, r.t)
  ELSE LET q == Commit(r.s, c) IN R(q.s, r.log \o q.log, q.t)
Write(s, c, k, v) ==
  LET w == WriteLock(s, c) IN
  IF w.t # "" THEN R(s, w.log, w.t)
  ELSE Auto(s, c, R([w.s EXCEPT !.con[c].v[k] = v], w.log, ""))
\* rows of an import, up to the bad one
RECURSIVE Rows(_, _, _)
Rows(s, c, rows) ==
  IF rows = <<>> THEN R(s, <<>>, "")
  ELSE LET w == WriteLock(s, c) IN
       IF w.t # "" THEN w ELSE Rows([w.s EXCEPT !.con[c].v[rows[1][1]] = rows[1][2]], c, Tail(rows))
Import(s, c, rows, bad) ==
  LET a == Rows(s, c, rows)
      nul == WriteLock(a.s, c)          \* a row refused by the table needs the lock first
      b == IF a.t # "" THEN a
           ELSE IF bad = 1 THEN R(a.s, a.log, "W")
           ELSE IF bad = 2 THEN (IF nul.t # "" THEN R(a.s, a.log \o nul.log, nul.t) ELSE R(nul.s, a.log, "N"))
           ELSE a
  IN IF InTx(s, c)
     THEN IF b.t = "" THEN b
          ELSE R([b.s EXCEPT !.con[c].v = IF b.s.con[c].lvl = 0 THEN @ ELSE See(s, c)], b.log, b.t)
     ELSE IF b.t # "" THEN R(Rollback(b.s, c), b.log, b.t)
     ELSE LET q == Commit(b.s, c) IN R(q.s, b.log \o q.log, q.t)

Show(v) == ToString(v[1]) \o "," \o ToString(v[2]) \o "," \o ToString(v[3]) \o "," \o ToString(v[4])

RECURSIVE Run(_, _), Act(_, _), QRows(_, _, _, _, _)
Run(s, acts) ==
  IF acts = <<>> THEN R(s, <<>>, "")
  ELSE LET a == Head(acts)
           ca == a[1]                   \* is an error of this action caught?
           x == Act(s, a)
           y == IF x.t \in {"", "!"} \/ ~ca THEN x ELSE R(x.s, x.log \o <<"c" \o x.t>>, "")
       IN IF y.t # "" THEN y
          ELSE LET z == Run(y.s, Tail(acts)) IN R(z.s, y.log \o z.log, z.t)
QRows(s, c, body, mode, n) ==           \* the rows of a query, n left
  IF n = 0 THEN R(s, <<>>, "")
  ELSE LET x == Run(s, body) IN
       IF x.t # "" THEN R(x.s, <<"q" \o Show(See(s, c))>> \o x.log, x.t)
       ELSE LET y == QRows(x.s, c, body, mode, IF mode = 0 THEN n - 1 ELSE 0)
            IN R(y.s, <<"q" \o Show(See(s, c))>> \o x.log \o y.log, y.t)
Act(s, a) ==
  LET c == IF Len(a) > 2 THEN a[3] ELSE 1 IN
  CASE a[2] = "throw" -> R(s, <<>>, "T")
    [] a[2] = "kill" -> R(s, <<"!">>, "!")
    [] a[2] = "conf" -> R([s EXCEPT !.con[c].hook = a[4], !.con[c].busy = a[5]], <<>>, "")
    [] a[2] = "peek" -> R(s, <<>>, "")          \* reading the options changes nothing
    [] a[2] = "w" -> Write(s, c, a[4], a[5])
    [] a[2] = "x" ->                            \* a statement, then one that violates a constraint
         LET w == Write(s, c, a[4], a[5]) IN
         IF w.t # "" THEN w
         ELSE LET l == WriteLock(w.s, c) IN
              IF l.t # "" THEN R(w.s, w.log \o l.log, l.t)
              ELSE R(IF InTx(s, c) THEN l.s ELSE w.s, w.log, "N")
    [] a[2] = "imp" -> Import(s, c, a[4], a[5])
    [] a[2] = "r" ->
         LET l == ReadLock(s, c) IN
         IF l.t # "" THEN l ELSE R(Drop(l.s, c), <<"r" \o Show(See(l.s, c))>>, "")
    [] a[2] = "q" ->
         LET l == ReadLock(s, c) IN
         IF l.t # "" THEN l
         ELSE LET x == QRows([l.s EXCEPT !.con[c].rd = @ + 1], c, a[4], a[5], 2)
              IN R(Drop([x.s EXCEPT !.con[c].rd = @ - 1], c), x.log, x.t)
    [] a[2] = "tx" ->                           \* ca, "tx", c, type, body
         LET top == ~InTx(s, c)
             beg == IF ~top THEN R([s EXCEPT !.con[c].stk = Append(@, See(s, c))], <<>>, "")
                    ELSE IF a[4] <= 1 THEN R([s EXCEPT !.con[c].stk = <<s.disk>>], <<>>, "")
                    ELSE IF a[4] = 2
                         THEN (IF Others(s, c, 2) THEN R(s, Busy(s, c), "L") ELSE R(Take([s EXCEPT !.con[c].stk = <<s.disk>>], c, 2), <<>>, ""))
                         ELSE (IF Others(s, c, 1) THEN R(s, Busy(s, c), "L") ELSE R(Take([s EXCEPT !.con[c].stk = <<s.disk>>], c, 4), <<>>, ""))
         IN IF beg.t # "" THEN beg
            ELSE LET x == Run(beg.s, a[5])
                     k == x.s.con[c]
                     n == Len(k.stk)
                     pop(v) == [x.s EXCEPT !.con[c].stk = SubSeq(@, 1, n - 1), !.con[c].v = IF k.lvl = 0 THEN @ ELSE v]
                 IN IF x.t = "!" THEN x
                    ELSE IF top THEN (IF x.t # "" THEN R(Rollback(x.s, c), x.log, x.t)
                                      ELSE LET q == Commit(x.s, c) IN R(q.s, x.log \o q.log, q.t))
                    ELSE IF x.t # "" THEN R(pop(k.stk[n]), x.log, x.t)
                    ELSE R(pop(k.v), x.log, "")

\* the only operation: a program, by a process that continues with the next one unless it dies
Do(s, e) ==
  LET x == Run(s, e.a[1]) IN
  {[s |-> IF x.t = "!" THEN [Init0 EXCEPT !.disk = x.s.disk] ELSE x.s, r |-> <<x.log, x.t>>]}

Inv(s) ==
  /\ s.disk[4] = 0
  /\ \A c \in 1..NC : s.con[c].stk = <<>> /\ s.con[c].rd = 0 /\ s.con[c].lvl = 0   \* between programs nothing is open
StepInv(s, e, t) == TRUE
=============================================================================
