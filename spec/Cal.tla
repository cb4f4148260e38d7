-------------------------------- MODULE Cal --------------------------------
(* Property U02: times, dates and their texts (strftime, strptime).  A time is [d |-> days since 1970-01-01, s |-> seconds of
   the day, m |-> milliseconds], in UTC.  The state: z, the time zone the process runs in ("" none yet), and t, a variable
   holding a time.  A format is a sequence of pieces: literal texts and conversions such as "%Y"; "%f" (at most one) stands for
   three digits of milliseconds. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Init0 == [z |-> "", t |-> [d |-> 0, s |-> 0, m |-> 0]]
Mn(a, b) == IF a < b THEN a ELSE b

\* the calendar (Gregorian, also before its introduction)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YStart(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)     \* the day number of January 1st
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE Before(y, m - 1) + MLen(y, m - 1)                       \* days of the year before month m
Days(y, m, d) == YStart(y) + Before(y, m) + (d - 1)
YearOf(n) == LET g == 1970 + ((n * 4) \div 1461)
             IN CHOOSE y \in (g - 8) .. (g + 8) : YStart(y) <= n /\ n < YStart(y + 1)
MonthOf(y, k) == CHOOSE m \in 1..12 : Before(y, m) <= k /\ (k < Before(y, m) + MLen(y, m))   \* k: day of the year from 0
WDay(n) == (n + 4) % 7                                                                      \* 0: Sunday
Add(t, x) == LET u == t.s + x IN [t EXCEPT !.d = @ + (u \div 86400), !.s = u % 86400]
Le(a, b) == a.d < b.d \/ (a.d = b.d /\ a.s <= b.s)

\* time zones: offsets east of Greenwich in seconds; the rules name the change to (b) and from (e) daylight-saving time: month, week (5: last), weekday, second
Fix(o) == [std |-> o, dst |-> o, b |-> <<>>, e |-> <<>>]
Zones == [UTC |-> Fix(0), East |-> Fix(19800), West |-> Fix(-34200), Far |-> Fix(50400),
          NewYork |-> [std |-> -18000, dst |-> -14400, b |-> <<3, 2, 0, 7200>>, e |-> <<11, 1, 0, 7200>>],
          Sydney |-> [std |-> 36000, dst |-> 39600, b |-> <<10, 1, 0, 7200>>, e |-> <<4, 1, 0, 10800>>],
          London |-> [std |-> 0, dst |-> 3600, b |-> <<3, 5, 0, 3600>>, e |-> <<10, 5, 0, 7200>>]]
RuleDay(y, r) == LET f == Days(y, r[1], 1)
                     k == (r[3] - WDay(f)) % 7
                     n == k + 7 * (r[2] - 1)
                 IN f + (IF n >= MLen(y, r[1]) THEN n - 7 ELSE n)
At(y, r, off) == Add([d |-> RuleDay(y, r), s |-> 0, m |-> 0], r[4] - off)
Offset(z, t) ==
  LET q == Zones[z]
  IN IF q.b = <<>> THEN q.std
     ELSE LET y == YearOf(Add(t, q.std).d)
              b == At(y, q.b, q.std)
              e == At(y, q.e, q.dst)
              in == IF Le(b, e) THEN Le(b, t) /\ ~Le(e, t) ELSE Le(b, t) \/ ~Le(e, t)
          IN IF in THEN q.dst ELSE q.std

Fields(t, off) ==
  LET l == Add(t, off)
      y == YearOf(l.d)
      k == l.d - YStart(y)
      mo == MonthOf(y, k)
  IN [y |-> y, mo |-> mo, d |-> k - Before(y, mo) + 1, h |-> l.s \div 3600, mi |-> (l.s \div 60) % 60, s |-> l.s % 60, m |-> l.m, wd |-> WDay(l.d), yd |-> k, off |-> off]

\* texts
RECURSIVE Pad(_, _, _)
Pad(t, w, c) == IF Len(t) < w THEN Pad(c \o t, w, c) ELSE t
N(k, w) == Pad(ToString(k), w, "0")
Mon == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Mon3 == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Wk == <<"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday">>
Wk3 == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
H12(h) == IF h % 12 = 0 THEN 12 ELSE h % 12
\* the ISO week: <<year, week>>
IsoWeek(f) ==
  LET n == YStart(f.y) + f.yd
      th == n - ((f.wd + 6) % 7) + 3           \* the Thursday of the week
      y == YearOf(th)
  IN <<y, ((th - YStart(y)) \div 7) + 1>>
RECURSIVE Show(_, _)
RECURSIVE Text(_, _)
Show(f, c) ==
  CASE c = "%Y" -> N(f.y, 4) [] c = "%m" -> N(f.mo, 2) [] c = "%d" -> N(f.d, 2) [] c = "%H" -> N(f.h, 2) [] c = "%M" -> N(f.mi, 2) [] c = "%S" -> N(f.s, 2)
    [] c = "%f" -> N(f.m, 3) [] c = "%y" -> N(f.y % 100, 2) [] c = "%C" -> N(f.y \div 100, 2) [] c = "%e" -> Pad(ToString(f.d), 2, " ")
    [] c = "%j" -> N(f.yd + 1, 3) [] c = "%u" -> ToString(IF f.wd = 0 THEN 7 ELSE f.wd) [] c = "%w" -> ToString(f.wd)
    [] c = "%I" -> N(H12(f.h), 2) [] c = "%p" -> (IF f.h < 12 THEN "AM" ELSE "PM")
    [] c = "%a" -> Wk3[f.wd + 1] [] c = "%A" -> Wk[f.wd + 1] [] c = "%b" -> Mon3[f.mo] [] c = "%B" -> Mon[f.mo]
    [] c = "%U" -> N((f.yd + 7 - f.wd) \div 7, 2) [] c = "%W" -> N((f.yd + 7 - ((f.wd + 6) % 7)) \div 7, 2)
    [] c = "%G" -> N(IsoWeek(f)[1], 4) [] c = "%V" -> N(IsoWeek(f)[2], 2)
    [] c = "%F" -> Text(f, <<"%Y", "-", "%m", "-", "%d">>) [] c = "%T" -> Text(f, <<"%H", ":", "%M", ":", "%S">>) [] c = "%R" -> Text(f, <<"%H", ":", "%M">>)
    [] c = "%D" -> Text(f, <<"%m", "/", "%d", "/", "%y">>) [] c = "%c" -> Text(f, <<"%a", " ", "%b", " ", "%e", " ", "%T", " ", "%Y">>)
    [] c = "%z" -> LET o == IF f.off < 0 THEN 0 - f.off ELSE f.off IN (IF f.off < 0 THEN "-" ELSE "+") \o N(o \div 3600, 2) \o N((o \div 60) % 60, 2)
    [] c = "%%" -> "%" [] OTHER -> c
Text(f, p) == IF p = <<>> THEN "" ELSE Show(f, p[1]) \o Text(f, Tail(p))
Plain == <<"%F", " ", "%T">>
Iso == <<"%F", "T", "%T", ".", "%f">>
Default(k) == CASE k = "iso" -> Iso [] OTHER -> Plain

\* what a text written by Text says about the time: everything not in the format is 0
Has(p, cs) == \E i \in 1..Len(p) : p[i] \in cs
Trunc(f, p) == [f EXCEPT !.s = IF Has(p, {"%S", "%T", "%c"}) THEN @ ELSE 0,
                         !.m = IF Has(p, {"%f"}) THEN @ ELSE 0,
                         !.mi = IF Has(p, {"%M", "%T", "%R", "%c"}) THEN @ ELSE 0,
                         !.h = IF Has(p, {"%H", "%T", "%R", "%c", "%I"}) THEN @ ELSE 0,
                         !.y = IF Has(p, {"%Y", "%F", "%c"}) THEN @ ELSE IF @ % 100 < 69 THEN 2000 + (@ % 100) ELSE 1900 + (@ % 100)]
\* the times the fields may mean: off = "none" or the offset given in the text; in the hour a zone skips or repeats there are two readings
Civil(f) == Add([d |-> Days(f.y, f.mo, f.d), s |-> 0, m |-> f.m], 3600 * f.h + 60 * f.mi + f.s)
Mean(z, f, utc) ==
  IF utc THEN {Civil(f)}
  ELSE LET os == {Zones[z].std, Zones[z].dst}
           c == Civil(f)
           ok == {o \in os : Offset(z, Add(c, 0 - o)) = o}
       IN {Add(c, 0 - o) : o \in IF ok = {} THEN os ELSE ok}
Given(f) == f.y \in 1000..9999 /\ f.mo \in 1..12 /\ f.d \in 1..31 /\ f.h \in 0..23 /\ f.mi \in 0..59 /\ f.s \in 0..59
Real(f) == Given(f) /\ f.d <= MLen(f.y, f.mo)
\* a fraction's digits as milliseconds
Milli(ds) == LET g(i) == IF i <= Len(ds) THEN ds[i] ELSE 0 IN 100 * g(1) + 10 * g(2) + g(3)

R(k, x, d, m) == [k |-> k, x |-> x, d |-> d, m |-> m]
RT(t) == R("t", "", t.d, 1000 * t.s + t.m)
RS(x) == R("s", x, 0, 0)
\* operations: zone z; set d ms; fmt pieces utc secs; std kind utc ("plain" or "iso"); rt pieces utc (format, then parse with the same format);
\* rtd kind utc (format with the defaults, parse with the defaults); parse fields pieces utc digits offset: parse a text showing the fields
Do(st, e) ==
  LET a == e.a
      to(ts) == {[s |-> [st EXCEPT !.t = t], r |-> RT(t)] : t \in ts}
      off(u) == IF u THEN 0 ELSE Offset(st.z, st.t)
  IN CASE e.op = "zone" -> IF st.z = "" /\ a[1] \in DOMAIN Zones THEN {[s |-> [st EXCEPT !.z = a[1]], r |-> RS("")]} ELSE {}
       [] st.z = "" -> {}
       [] e.op = "set" -> to({[d |-> a[1], s |-> a[2] \div 1000, m |-> a[2] % 1000]})
       [] e.op = "fmt" -> {[s |-> st, r |-> RS(Text(Fields(st.t, off(a[2])), a[1]))]}
       [] e.op = "std" -> {[s |-> st, r |-> RS(Text(Fields(st.t, off(a[2])), Default(a[1])))]}
       [] e.op = "rt" -> to(Mean(st.z, Trunc(Fields(st.t, off(a[2])), a[1]), a[2]))
       [] e.op = "rtd" -> to(Mean(st.z, Trunc(Fields(st.t, off(a[2])), Default(a[1])), a[2]))
       [] e.op = "secs" -> {[s |-> st, r |-> R("t", "", st.t.d, 1000 * st.t.s)]} \cup (IF st.t.d < 0 /\ st.t.m > 0 THEN {[s |-> st, r |-> RT(Add([st.t EXCEPT !.m = 0], 1))]} ELSE {})
       [] e.op = "parse" ->
            LET f == [y |-> a[1][1], mo |-> a[1][2], d |-> a[1][3], h |-> a[1][4], mi |-> a[1][5], s |-> a[1][6], m |-> Milli(a[4])]
                g == Trunc(f, IF a[4] = <<>> THEN a[2] ELSE Append(a[2], "%f"))
                o == a[5][1]
                ts == IF o = "none" THEN Mean(st.z, g, a[3]) ELSE {Add(Civil(g), IF o = "+" THEN 0 - a[5][2] ELSE a[5][2])}
                no == {[s |-> st, r |-> RS("NaN")]}
            IN IF ~Given(f) THEN no ELSE IF Real(f) THEN to(ts) ELSE no \cup to(ts)
       [] OTHER -> {}
Good(t) == t.s \in 0..86399 /\ t.m \in 0..999
Inv(st) == /\ Good(st.t)
           /\ st.z # "" => LET f == Fields(st.t, 0)
                               l == Fields(st.t, Offset(st.z, st.t))
                           IN /\ Real(f) => Civil(f) = st.t                       \* the calendar is reversible
                              /\ st.t \in Mean(st.z, l, FALSE)                     \* so is local time, up to repeated hours
                              /\ Cardinality(Mean(st.z, l, FALSE)) <= 2
\* formatting and parsing back never moves a time in UTC by more than what the format leaves out, and is stable
StepInv(st, e, ns) ==
  /\ e.op \in {"fmt", "std", "secs"} => ns = st
  /\ (e.op = "rtd" /\ e.a[2]) => (ns.t = IF e.a[1] = "iso" THEN st.t ELSE [st.t EXCEPT !.m = 0])
  /\ (e.op = "rt" /\ e.a[2]) => Le(ns.t, st.t) \/ Has(e.a[1], {"%y"})
=============================================================================
