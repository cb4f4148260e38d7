-------------------------------- MODULE DStr --------------------------------
(* Dynamic strings of the C API.  A string is a sequence of runs <<character, count>>, flattened; s is the sequence of
   all strings.  Results: [what the call returned, length, contents and terminator of every string].             *)
EXTENDS TLC, Sequences, Naturals, Integers
Init0 == <<>>

\* append n times ch
Add(c, ch, n) == IF n <= 0 THEN c
                 ELSE IF c # <<>> /\ c[Len(c) - 1] = ch THEN [c EXCEPT ![Len(c)] = @ + n]
                 ELSE c \o <<ch, n>>
RECURSIVE Cat(_, _), Take(_, _), Length(_)
Cat(c, d) == IF d = <<>> THEN c ELSE Cat(Add(c, d[1], d[2]), SubSeq(d, 3, Len(d)))
Length(c) == IF c = <<>> THEN 0 ELSE c[2] + Length(SubSeq(c, 3, Len(c)))
Take(c, n) == IF n <= 0 \/ c = <<>> THEN <<>>
              ELSE IF c[2] >= n THEN <<c[1], n>>
              ELSE <<c[1], c[2]>> \o Take(SubSeq(c, 3, Len(c)), n - c[2])
RECURSIVE Dump(_, _)
Dump(s, i) == IF i > Len(s) THEN <<>> ELSE <<i, Length(s[i])>> \o s[i] \o <<-1>> \o Dump(s, i + 1)
Out(s, res) == {[s |-> s, r |-> <<res, Dump(s, 1)>>]}
\* the part of a run of n times ch that strings ending in NUL have
Str(ch, n) == IF ch = 0 THEN <<>> ELSE Add(<<>>, ch, n)

Do(s, e) ==
  LET a == e.a IN
  CASE e.op = "new" -> Out(Append(s, IF a[1] = 3 THEN Str(a[2], a[3]) ELSE <<>>), <<>>)
    [] e.op = "app" ->
         LET x == Str(a[2], a[3])
             y == IF a[5] < 0 THEN x ELSE Cat(x, Str(a[4], a[5]))
             z == IF a[5] < 0 \/ a[7] < 0 THEN y ELSE Cat(y, Str(a[6], a[7])) IN
         Out([s EXCEPT ![a[1]] = Cat(@, z)], <<>>)
    [] e.op = "applen" -> Out([s EXCEPT ![a[1]] = IF a[4] < 0 THEN Cat(@, Str(a[2], a[3])) ELSE Add(@, a[2], a[4])], <<>>)
    [] e.op = "printf" ->
         LET x == Str(a[2], a[3])
             y == Str(a[4], a[5])
             t == CASE a[6] = 0 -> x
                    [] a[6] = 1 -> Cat(x, y)
                    [] a[6] = 2 -> Cat(Add(<<>>, 48, a[3] - 1), <<55, 1>>)
                    [] a[6] = 3 -> Cat(Cat(<<53, 1>>, x), Cat(<<99, 1>>, y)) IN
         Out([s EXCEPT ![a[1]] = Cat(@, t)], <<>>)
    [] e.op = "set" -> Out([s EXCEPT ![a[1]] = IF a[3] < 0 THEN <<>> ELSE Str(a[2], a[3])], <<>>)
    [] e.op = "setlen" -> Out([s EXCEPT ![a[1]] = Take(@, a[2])], <<1>>)      \* truncates, or provides space
    [] e.op = "free" -> Out([s EXCEPT ![a[1]] = <<>>], <<>>)
    [] e.op = "freedup" -> Out([s EXCEPT ![a[1]] = <<>>], s[a[1]] \o <<-3>>)
    [] e.op = "copy" -> Out([s EXCEPT ![a[1]] = Cat(@, s[a[2]])], <<>>)

\* runs are maximal and not empty
Norm(c) == Len(c) % 2 = 0 /\ \A i \in 1..(Len(c) \div 2) : c[2 * i] > 0 /\ (i > 1 => c[2 * i - 1] # c[2 * i - 3])
Inv(s) == \A i \in 1..Len(s) : Norm(s[i])
\* appending never changes what was there
StepInv(s, e, s2) == e.op \in {"app", "applen", "printf", "copy"} => Take(s2[e.a[1]], Length(s[e.a[1]])) = s[e.a[1]]
=============================================================================
