--------------------------------- MODULE NumMC ---------------------------------
(* Every operator on every pair of numbers at the edges of what it does: signs, halves of words, shift counts around 32, eighths. *)
EXTENDS Num
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
Canon(st) == st
W(h, l) == <<"w", h, l>>
U(h, l) == <<"u", h, l>>
E(n) == <<"e", n>>
Words == {W(0, 0), W(0, 1), W(0, 7), W(0, 65535), W(1, 0), W(32767, 65535), W(32768, 0), W(32768, 1), W(65535, 65535), W(65535, 0), W(65535, 65533), W(4660, 22136), W(43981, 4242)}
         \cup (IF Big THEN {W(0, 32768), W(16384, 0), W(49151, 65535), W(21845, 21845), W(43690, 43690)} ELSE {})
Wide == {U(32768, 0), U(65535, 65535), U(48879, 1)} \cup (IF Big THEN {U(43690, 43690), U(32768, 1)} ELSE {})
Counts == {E(8 * n) : n \in {0, 1, 5, 15, 16, 17, 31, 32, 33, 47, 64, 0 - 1, 0 - 31} \cup (IF Big THEN 2..30 ELSE {})} \cup {E(12), W(32768, 0)}
Es == {E(n) : n \in {0, 1, 4, 8, 12, 20, 44, 0 - 1, 0 - 4, 0 - 8, 0 - 20, 1000, 7999, 30000, 0 - 30000} \cup (IF Big THEN {2, 3, 5, 6, 7, 9, 10, 15, 16, 17, 0 - 12, 24, 100, 0 - 7999} ELSE {})}
AnyNum == Words \cup Wide \cup Es
Mk(k, x, y) == [op |-> "num", a |-> <<k, x, y, 0>>]
DivOk(x, y) == y[2] # 0 /\ (64 * x[2]) % Abs(y[2]) = 0
SmallOps(st) ==
  {Mk(k, x, y) : k \in {"<<", ">>", ">>>"}, x \in Words \cup Wide \cup {E(12), E(0 - 12), E(44)}, y \in Counts}
  \cup {Mk(k, x, y) : k \in {"&", "|", "^"}, x, y \in Words \cup {E(12), E(0 - 12)}}
  \cup {Mk(k, x, y) : k \in {"==", "===", "!=", "!==", "<", ">", "<=", ">="}, x, y \in AnyNum}
  \cup {Mk(k, x, y) : k \in {"+", "-", "*"}, x, y \in Es}
  \cup {Mk("/", x, y) : x, y \in Es} \cup {Mk("%", x, y) : x, y \in Es}
  \cup {Mk(k, x, E(0)) : k \in {"neg", "pos", "inc", "dec"}, x \in Es}
  \cup {Mk("~", x, E(0)) : x \in Words \cup {E(12), E(0 - 12), E(44)}} \cup {Mk("!", x, E(0)) : x \in AnyNum}
Real(st) == {e \in SmallOps(st) : (e.a[1] = "/" => DivOk(e.a[2], e.a[3])) /\ (e.a[1] = "%" => e.a[3][2] # 0)}
\* laws: the three ways of comparing agree, shifts undo each other, a ^ b ^ b = a, ~~a = a, (a / b) * b + a % b = a
Laws(st, e, t) ==
  LET k == e.a[1] x == e.a[2] y == e.a[3]
      b(o) == CHOOSE r \in Op(o, x, y) : TRUE
      w(m) == IF m[2] THEN Minus(<<m[3], m[4]>>) ELSE <<m[3], m[4]>>
      n == Word(y)[2] % 32
  IN CASE k = "<" -> /\ Cardinality3(b("<")[2], b("==")[2], b(">")[2]) = 1 /\ b("<=")[2] = (b("<")[2] \/ b("==")[2])
       [] k = "^" -> w(Bits("^", <<"w">> \o w(b("^")), y)) = Word(x)
       [] k = "~" -> w(Bits("~", <<"w">> \o w(b("~")), y)) = Word(x)
       [] k = ">>>" -> Shl(w(b(">>>")), n) = And2(Word(x), Shl(<<65535, 65535>>, n))
       [] k = ">>" -> And2(w(b(">>")), Shr(<<65535, 65535>>, n)) = Shr(Word(x), n)
       [] k = "<<" -> Shr(Shl(Word(x), n), n) = And2(Word(x), Shr(<<65535, 65535>>, n))
       [] k = "%" -> Abs(b("%")[2]) < 8 * Abs(y[2]) /\ (b("%")[2] = 0 \/ (b("%")[2] < 0) = (x[2] < 0))
       [] OTHER -> TRUE
I0 == {Init0}
INSTANCE Explore WITH InitSet <- I0, StepInv <- Laws, SmallOps <- Real
================================================================================
