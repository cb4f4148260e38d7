------------------------------- MODULE Timer -------------------------------
(* Timers and the processing of events.  State: the clock, the timers [due, per, once, sc, cnt, busy] by the order in which
   they were set, and the table of scripts callbacks run.  The clock is virtual: it moves only by sleeping, so every
   round of processing has one time.  A round calls every timer that is due when it begins, once, in an order of the
   implementation's choice (read off the observed log), except those cleared or under way.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Init0 == [now |-> 0, n |-> 0, tm |-> <<>>, sc |-> <<>>, fuel |-> 0, log |-> <<>>, x |-> FALSE, c |-> 0, over |-> FALSE]
Remove(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Lg(s, x) == IF s.over THEN s ELSE [s EXCEPT !.log = Append(@, x)]
FireEntry(s, k) == "f" \o ToString(k) \o "@" \o ToString(s.now)
Bool(b) == IF b THEN "T" ELSE "F"
InfoStr(s, k) == IF k \notin DOMAIN s.tm THEN "e"
                 ELSE LET t == s.tm[k] IN "i" \o Bool(t.once) \o ToString(t.due - s.now) \o "," \o ToString(t.cnt) \o "," \o ToString(t.per) \o Bool(t.busy)
SetTimer(s, once, ms, sc) == [s EXCEPT !.n = @ + 1,
   !.tm = Put(@, s.n + 1, [due |-> s.now + (IF ms < 0 THEN 0 ELSE ms), per |-> IF ms < 0 THEN 0 ELSE ms, once |-> once, sc |-> sc, cnt |-> 0, busy |-> FALSE])]
Clear(s, k) == IF k \in DOMAIN s.tm THEN Lg([s EXCEPT !.tm = Remove(@, k)], "c") ELSE Lg(s, "e")
RECURSIVE NamesFrom(_, _)
NamesFrom(s, i) == IF i > s.n THEN "" ELSE (IF i \in DOMAIN s.tm THEN ToString(i) \o "," ELSE "") \o NamesFrom(s, i + 1)
Min(A) == CHOOSE a \in A : \A b \in A : a <= b
Eligible(s, cur, seen, top) == {k \in DOMAIN s.tm : ~s.tm[k].busy /\ s.tm[k].due <= cur /\ k \notin seen /\ k <= top}
RECURSIVE Acts(_, _, _, _), Round(_, _, _, _, _, _), Update(_, _, _, _)
\* L: the observed log, only used to choose which due timer is next
Act(s, a, k, L) ==
  CASE a[1] = "set" -> Lg(SetTimer(s, a[2], a[3], a[4]), "s")
    [] a[1] = "clear" -> Clear(s, a[2])
    [] a[1] = "clearself" -> Clear(s, k)
    [] a[1] = "throw" -> [s EXCEPT !.x = TRUE]
    [] a[1] = "sleep" -> [s EXCEPT !.now = @ + a[2]]
    [] a[1] = "update" -> LET t == Update(s, a[2], L, [start |-> s.now, cnt |-> 0, pass |-> 0])
                          IN Lg(t, "u" \o ToString(t.c))
    [] a[1] = "names" -> Lg(s, "n" \o NamesFrom(s, 1))
    [] a[1] = "info" -> Lg(s, InfoStr(s, a[2]))
Acts(s, as, k, L) == IF s.x \/ s.over \/ as = <<>> THEN s ELSE Acts(Act(s, Head(as), k, L), Tail(as), k, L)
Fire(s, k, cur, L) ==
  LET s1 == [s EXCEPT !.tm[k].busy = TRUE, !.tm[k].cnt = @ + 1]
      sc == s.tm[k].sc
      s2 == IF s1.fuel = 0 THEN [s1 EXCEPT !.over = TRUE]    \* enough: the driver stops here
            ELSE Acts(Lg([s1 EXCEPT !.fuel = @ - 1], FireEntry(s1, k)), s1.sc[sc], k, L)
      s3 == [s2 EXCEPT !.x = FALSE]
  IN IF k \notin DOMAIN s3.tm THEN s3
     ELSE IF s3.tm[k].once THEN [s3 EXCEPT !.tm = Remove(@, k)]
     ELSE [s3 EXCEPT !.tm[k].busy = FALSE, !.tm[k].due = cur + s3.tm[k].per]
Round(s, cur, seen, top, max, L) ==     \* s.c: number of events so far in this round
  LET el == Eligible(s, cur, seen, top)
  IN IF s.over \/ el = {} \/ (max >= 0 /\ s.c >= max) THEN s
     ELSE LET want == {k \in el : Len(s.log) < Len(L) /\ L[Len(s.log) + 1] = FireEntry(s, k)}
              k == IF want # {} THEN Min(want) ELSE Min(el)
              t == Fire(s, k, cur, L)
          IN Round([t EXCEPT !.c = s.c + 1], cur, seen \cup {k}, top, max, L)
\* o: [min, max, passes, sleep];  u: [start, cnt, pass]
Update(s, o, L, u) ==
  IF o.max >= 0 /\ u.cnt >= o.max THEN [s EXCEPT !.c = u.cnt]
  ELSE LET t == Round([s EXCEPT !.c = 0], s.now, {}, s.n, IF o.max < 0 THEN -1 ELSE o.max - u.cnt, L)
           cnt == u.cnt + t.c
       IN IF t.over \/ o.min = 0 \/ (o.min > 0 /\ t.now - u.start >= o.min) \/ (o.passes > 0 /\ u.pass + 1 >= o.passes)
          THEN [t EXCEPT !.c = cnt]
          ELSE Update([t EXCEPT !.now = @ + (IF o.sleep > 0 THEN o.sleep ELSE 0)], o, L, [start |-> u.start, cnt |-> cnt, pass |-> u.pass + 1])
Inv(s) == s.over \/
          /\ \A k \in DOMAIN s.tm : k <= s.n /\ ~s.tm[k].busy /\ (s.tm[k].once => s.tm[k].cnt = 0)
          /\ s.now >= 0 /\ ~s.x
StepInv(s, e, t) == /\ t.now >= s.now /\ t.n >= s.n
                    /\ \A k \in 1..s.n : k \in DOMAIN t.tm => (k \in DOMAIN s.tm /\ t.tm[k].cnt >= s.tm[k].cnt)
                    /\ e.op = "update" => \A k \in DOMAIN s.tm : s.tm[k].due <= s.now /\ e.a[1].max < 0 =>
                                            k \notin DOMAIN t.tm \/ t.tm[k].cnt > s.tm[k].cnt
Do(s0, e) ==
  LET s == [s0 EXCEPT !.fuel = 30, !.log = <<>>, !.c = 0]
      Out(t) == {[s |-> [t EXCEPT !.log = <<>>, !.fuel = 0, !.c = 0], r |-> <<IF t.over THEN 0 - 1 ELSE t.c, t.log>>]}
  IN CASE e.op = "scripts" -> {[s |-> [s0 EXCEPT !.sc = e.a[1]], r |-> <<0, <<>>>>]}
       [] e.op = "update" -> Out(Update(s, e.a[1], IF "r" \in DOMAIN e /\ Len(e.r) > 1 THEN e.r[2] ELSE <<>>, [start |-> s.now, cnt |-> 0, pass |-> 0]))
       [] OTHER -> Out(Act(s, <<e.op>> \o e.a, 0, <<>>))
=============================================================================
