---------------------------------- MODULE Path ----------------------------------
(* Paths as text and as names of file system entries.  A path is the list of what stands between its slashes, each part split
   at its last dot: <<stem, extension>>; so /a.b//c is <<"",""> , <<"a",".b">>, <<"","">>, <<"c","">> >>.
   The entries of the file system are known by their physical (absolute, link-free) list of names.                             *)
EXTENDS Integers, Sequences, FiniteSets
Nil == <<"", "">>
Dot == <<"", ".">>
DotDot == <<".", ".">>
\* tree: a set of [p |-> physical list of names, k |-> "d", "f" or "l", t |-> target path of a link]; the root directory is always there
Entry(s, p) == CHOOSE x \in s.tree : x.p = p
Has(s, p) == \E x \in s.tree : x.p = p
Front(q) == SubSeq(q, 1, Len(q) - 1)
LastOf(q) == q[Len(q)]
Abs(q) == Len(q) > 1 /\ q[1] = Nil
Real(c) == c # Nil /\ c # Dot               \* a component that is not empty or .
RECURSIVE Walk(_, _, _, _, _)
\* the entry reached from directory `at` by the components q: [ok, p], following links (the last one too when `fin`), at most `fuel` of them
Bad == [ok |-> FALSE, p |-> <<>>]
IsDir(s, p) == p = <<>> \/ (Has(s, p) /\ Entry(s, p).k = "d")
Walk(s, at, q, fin, fuel) ==
  IF q = <<>> THEN [ok |-> TRUE, p |-> at]
  ELSE LET c == q[1]
           rest == Tail(q)
       IN IF ~IsDir(s, at) THEN Bad
          ELSE IF ~Real(c) THEN Walk(s, at, rest, fin, fuel)
          ELSE IF c = DotDot THEN Walk(s, IF at = <<>> THEN at ELSE Front(at), rest, fin, fuel)
          ELSE LET p == Append(at, c) IN
               IF ~Has(s, p) THEN Bad
               ELSE IF Entry(s, p).k = "l" /\ (rest # <<>> \/ fin)
                 THEN IF fuel = 0 THEN Bad
                      ELSE LET t == Entry(s, p).t IN Walk(s, IF Abs(t) THEN <<>> ELSE at, t \o rest, fin, fuel - 1)
                 ELSE IF rest # <<>> /\ Entry(s, p).k # "d" THEN Bad
                 ELSE Walk(s, p, rest, fin, fuel)
Empty(q) == q = <<Nil>>                      \* the empty text names nothing
Res(s, q) == IF Empty(q) THEN Bad ELSE Walk(s, IF Abs(q) THEN <<>> ELSE s.cwd, q, TRUE, 12)
RECURSIVE Clean(_, _)
\* the components left when . and .. are taken out of the text
Clean(done, q) ==
  IF q = <<>> THEN done
  ELSE IF ~Real(q[1]) THEN Clean(done, Tail(q))
  ELSE IF q[1] = DotDot THEN Clean(IF done = <<>> THEN done ELSE Front(done), Tail(q))
  ELSE Clean(Append(done, q[1]), Tail(q))
Textual(s, q) == Clean(<<>>, IF Abs(q) THEN q ELSE s.cwd \o q)
Out(p) == IF p = <<>> THEN <<Nil, Nil>> ELSE <<Nil>> \o p        \* an absolute path's text
\* what realpath may answer: the physical path, or for what is not there the text made absolute, without . and ..; an entry
\* that does not exist is either named wholly by its text or by its text below the physical path of the part that does exist
RECURSIVE Prefix(_, _, _)
Prefix(s, q, n) == IF n = 0 THEN {} ELSE LET w == Res(s, SubSeq(q, 1, n)) IN
                   (IF w.ok /\ IsDir(s, w.p) THEN {Out(Clean(w.p, SubSeq(q, n + 1, Len(q))))} ELSE {}) \cup Prefix(s, q, n - 1)
RealPaths(s, q) == LET w == Res(s, q) IN IF w.ok THEN {Out(w.p)} ELSE {Out(Textual(s, q))} \cup Prefix(s, q, Len(q))
Dirname(q) == IF Len(q) = 1 THEN (IF q[1] = DotDot THEN <<DotDot>> ELSE <<Dot>>)
              ELSE IF Len(q) = 2 /\ q[1] = Nil THEN <<Nil, Nil>> ELSE Front(q)
Kind(s, q) == LET w == Res(s, q) IN IF ~w.ok THEN "-" ELSE IF w.p = <<>> THEN "d" ELSE Entry(s, w.p).k
\* all answers about one path: dirname, tail, rootname, extension, isrelative, realpath, normalize, what is there, and the same
\* through the parts recombined
Facts(s, q) ==
  {<<Dirname(q), <<LastOf(q)>>, Append(Front(q), <<LastOf(q)[1], "">>), <<LastOf(q)[2]>>, ~Abs(q), rp, Out(Textual(s, q)), Kind(s, q)>> : rp \in RealPaths(s, q)}
S1(tree, cwd) == [tree |-> tree, cwd |-> cwd]
Do(s, e) ==
  LET a == e.a
      R(x) == {[s |-> s, r |-> v] : v \in x}
  IN
  CASE e.op = "facts" -> R(Facts(s, a[1]))
    [] e.op = "join" -> R({<<x>> : x \in RealPaths(s, IF Abs(a[2]) THEN a[2] ELSE a[1] \o a[2])})
    [] e.op = "chdir" -> LET w == Res(s, a[1]) IN IF w.ok /\ IsDir(s, w.p) THEN {[s |-> [s EXCEPT !.cwd = w.p], r |-> <<"ok">>]} ELSE R({<<"e">>})
    [] e.op = "pwd" -> R({<<Out(s.cwd)>>})
    [] e.op = "readlink" -> LET w == Walk(s, IF Abs(a[1]) THEN <<>> ELSE s.cwd, a[1], LastOf(a[1]) = Nil, 12)
                            IN IF w.ok /\ w.p # <<>> /\ Entry(s, w.p).k = "l" THEN R({<<Entry(s, w.p).t>>}) ELSE R({<<"e">>})
    [] OTHER -> {}
\* what the parts of a path say together
Law(s, q) ==
  LET w == Res(s, q)
      again == Res(s, Dirname(q) \o <<LastOf(q)>>)
  IN /\ ~Empty(q) /\ q # <<DotDot>> => again = w                       \* the parts recombined name the same entry
     /\ w.ok => /\ Res(s, Out(w.p)) = w                                 \* the real path names the same entry, and itself
                /\ \A i \in 1..Len(w.p) : Real(w.p[i]) /\ w.p[i] # DotDot
                /\ ~(Has(s, w.p) /\ Entry(s, w.p).k = "l")
     /\ LET t == Textual(s, q) IN Textual(s, Out(t)) = t
Inv(s) == IsDir(s, s.cwd)
StepInv(s, e, s2) == e.op = "facts" => Law(s, e.a[1])
================================================================================
