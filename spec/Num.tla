---------------------------------- MODULE Num ----------------------------------
(* What the arithmetic, comparison and bit operators yield, exactly.  Numbers are eighths <<"e", n>> (n/8), 32 bit integers as two
   halves, signed <<"w", h, l>> or unsigned <<"u", h, l>>.  Results: <<"b", TRUE>>, <<"e", n>> (n/64) for arithmetic, and
   <<"m", neg, h, l>> (sign and size) for the bit operators.                                                                     *)
EXTENDS Integers, Sequences, TLC, Bitwise
Init0 == [n |-> 0]
Inv(s) == s.n >= 0
StepInv(s, e, t) == TRUE
Abs(i) == IF i < 0 THEN 0 - i ELSE i
Trunc(i, j) == LET q == Abs(i) \div Abs(j) IN IF (i < 0) = (j < 0) THEN q ELSE 0 - q
Pow(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256
            [] k = 9 -> 512 [] k = 10 -> 1024 [] k = 11 -> 2048 [] k = 12 -> 4096 [] k = 13 -> 8192 [] k = 14 -> 16384 [] k = 15 -> 32768 [] OTHER -> 65536
\* the 32 bits of a number: what is behind the point is dropped
Word(x) == CASE x[1] = "e" -> LET t == Trunc(x[2], 8) IN IF t >= 0 THEN <<t \div 65536, t % 65536>>
                                ELSE LET u == (0 - t) - 1 IN <<65535 - (u \div 65536), 65535 - (u % 65536)>>
             [] OTHER -> <<x[2], x[3]>>
Not2(w) == <<65535 - w[1], 65535 - w[2]>>
Minus(w) == IF w[2] = 0 THEN <<(65536 - w[1]) % 65536, 0>> ELSE <<65535 - w[1], 65536 - w[2]>>
Shl(w, n) == IF n >= 16 THEN <<(w[2] * Pow(n - 16)) % 65536, 0>>
             ELSE <<((w[1] * Pow(n)) + ((w[2] * Pow(n)) \div 65536)) % 65536, (w[2] * Pow(n)) % 65536>>
Shr(w, n) == IF n >= 16 THEN <<0, w[1] \div Pow(n - 16)>>
             ELSE <<w[1] \div Pow(n), (w[2] \div Pow(n)) + (((w[1] % Pow(n)) * Pow(16 - n)) % 65536)>>
Or2(v, w) == <<v[1] | w[1], v[2] | w[2]>>
And2(v, w) == <<v[1] & w[1], v[2] & w[2]>>
Cardinality3(p, q, r) == (IF p THEN 1 ELSE 0) + (IF q THEN 1 ELSE 0) + (IF r THEN 1 ELSE 0)
Sar(w, n) == IF w[1] < 32768 THEN Shr(w, n) ELSE Or2(Shr(w, n), Not2(Shr(<<65535, 65535>>, n)))
Signed(w) == IF w[1] >= 32768 THEN LET m == Minus(w) IN <<"m", TRUE, m[1], m[2]>> ELSE <<"m", FALSE, w[1], w[2]>>
\* order of numbers: wide ones are compared by sign and halves, a wide one with eighths by its integer part
Neg(x) == CASE x[1] = "e" -> x[2] < 0 [] x[1] = "w" -> x[2] >= 32768 [] OTHER -> FALSE
Size(x) == IF x[1] = "e" THEN <<Abs(x[2]) \div 524288, (Abs(x[2]) \div 8) % 65536, Abs(x[2]) % 8>>
           ELSE LET w == IF Neg(x) THEN Minus(<<x[2], x[3]>>) ELSE <<x[2], x[3]>> IN <<w[1], w[2], 0>>
LessSize(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] < q[3])))
Zero(x) == Size(x) = <<0, 0, 0>>
Less(x, y) == IF Neg(x) # Neg(y) THEN Neg(x) ELSE IF Neg(x) THEN LessSize(Size(y), Size(x)) ELSE LessSize(Size(x), Size(y))
Eq(x, y) == Neg(x) = Neg(y) /\ Size(x) = Size(y)
Boo(b) == {<<"b", b>>}
Bits(k, x, y) ==
  LET v == Word(x) w == Word(y) n == w[2] % 32
  IN CASE k = "<<" -> Signed(Shl(v, n)) [] k = ">>" -> Signed(Sar(v, n)) [] k = ">>>" -> <<"m", FALSE>> \o Shr(v, n)
       [] k = "&" -> Signed(<<v[1] & w[1], v[2] & w[2]>>) [] k = "|" -> Signed(Or2(v, w)) [] k = "^" -> Signed(<<v[1] ^^ w[1], v[2] ^^ w[2]>>)
       [] k = "~" -> Signed(Not2(v))
\* the set of possible results (empty: not specified)
Op(k, x, y) ==
  CASE k \in {"==", "==="} -> Boo(Eq(x, y)) [] k \in {"!=", "!=="} -> Boo(~Eq(x, y))
    [] k = "<" -> Boo(Less(x, y)) [] k = ">" -> Boo(Less(y, x)) [] k = "<=" -> Boo(~Less(y, x)) [] k = ">=" -> Boo(~Less(x, y))
    [] k = "!" -> Boo(Zero(x))
    [] k \in {"<<", ">>", ">>>", "~"} -> {Bits(k, x, y)}
    [] k \in {"&", "|", "^"} -> {Bits(k, x, y)}
    [] k = "+" -> {<<"e", 8 * (x[2] + y[2])>>} [] k = "-" -> {<<"e", 8 * (x[2] - y[2])>>}
    [] k = "*" -> {<<"e", x[2] * y[2]>>}
    [] k = "/" -> {<<"e", (64 * x[2]) \div y[2]>>}                 \* only used where this is exact
    [] k = "%" -> {<<"e", 8 * (x[2] - y[2] * Trunc(x[2], y[2]))>>}
    [] k = "neg" -> {<<"e", 0 - 8 * x[2]>>} [] k = "pos" -> {<<"e", 8 * x[2]>>}
    [] k = "inc" -> {<<"e", 8 * (x[2] + 8)>>} [] k = "dec" -> {<<"e", 8 * (x[2] - 8)>>}
    [] OTHER -> {}
\* a: operator, operands, and where the driver takes them from (which makes no difference)
Do(s, e) == {[s |-> [n |-> s.n + 1], r |-> r] : r \in Op(e.a[1], e.a[2], e.a[3])}
================================================================================
