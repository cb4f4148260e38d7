--------------------------------- MODULE Fmt ---------------------------------
(* Property L11: numbers, their texts and format().  n: a variable of the script holding a number, as eighths (8 times its
   value) or "nan"; q: a variable holding a string, as a sequence of one-character strings.  The operations turn one into
   the other.  Results are pairs of a kind and a sequence of strings; numbers too large (beyond 2 million) or not a multiple of an eighth are
   reported as "big" and "odd" by the script and not stored.

   Conventions of this language: parseInt without radix takes 0x as hexadecimal and a leading 0 as octal; toString(radix)
   converts for 8 and 16 only, other radixes may give the decimal text; exponents have two digits. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Init0 == [n |-> 0, nan |-> FALSE, q |-> <<>>]
Big == 2000000
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Abs(k) == IF k < 0 THEN 0 - k ELSE k

DigitSeq == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpSeq    == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
DVal == [c \in ToSet(DigitSeq) \cup ToSet(UpSeq) |-> CHOOSE i \in 0..35 : DigitSeq[i + 1] = c \/ UpSeq[i + 1] = c]
IsDec(c) == c \in {"0","1","2","3","4","5","6","7","8","9"}
White == {" ", "\t", "\n"}
Zeros(k) == [i \in 1..Mx(k, 0) |-> "0"]
Spaces(k) == [i \in 1..Mx(k, 0) |-> " "]
RECURSIVE Digs(_, _)      \* value -> digits, most significant first
Digs(v, b) == IF v < b THEN <<v>> ELSE Append(Digs(v \div b, b), v % b)
Txt(ds, up) == [i \in 1..Len(ds) |-> IF up THEN UpSeq[ds[i] + 1] ELSE DigitSeq[ds[i] + 1]]
DecT(v) == Txt(Digs(v, 10), FALSE)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE TrimZ(_)
TrimZ(t) == IF t # <<>> /\ Last(t) = "0" THEN TrimZ(Front(t)) ELSE t
Thou(k) == (k % 8) * 125                      \* fraction of eighths in thousandths
Frac3(k) == LET d == DecT(Thou(k)) IN Zeros(3 - Len(d)) \o d
\* the text of k eighths
Text(k) == (IF k < 0 THEN <<"-">> ELSE <<>>) \o
           (LET p == Abs(k) IN DecT(p \div 8) \o (IF p % 8 = 0 THEN <<>> ELSE <<".">> \o TrimZ(Frac3(p))))
Trunc(k) == IF k < 0 THEN 0 - (Abs(k) \div 8) ELSE k \div 8

\* v div d, to the nearest, ties to even
Round(v, d) == LET c == v \div d  r == v % d IN IF 2 * r > d \/ (2 * r = d /\ c % 2 = 1) THEN c + 1 ELSE c
\* k (>= 0) eighths with p digits behind the point
Fixed(k, p, alt) ==
  LET v == IF p >= 3 THEN (k \div 8) * 1000 + Thou(k) ELSE Round((k \div 8) * 1000 + Thou(k), Pow(10, 3 - p))
      m == Mn(p, 3)
      d == DecT(v)
      dd == Zeros(m + 1 - Len(d)) \o d
      ip == SubSeq(dd, 1, Len(dd) - m)
      fp == SubSeq(dd, Len(dd) - m + 1, Len(dd)) \o Zeros(p - 3) IN
  ip \o (IF p > 0 \/ alt THEN <<".">> ELSE <<>>) \o fp
\* k (> 0 or 0) eighths as <<digits (p+1 of them), exponent>>
Sci(k, p) ==
  IF k = 0 THEN <<Zeros(p + 1), 0>>
  ELSE LET v == (k \div 8) * 1000 + Thou(k)
           d == DecT(v)
           x == Len(d) - 4
           w == IF Len(d) <= p + 1 THEN d \o Zeros(p + 1 - Len(d)) ELSE DecT(Round(v, Pow(10, Len(d) - p - 1))) IN
       IF Len(w) > p + 1 THEN <<SubSeq(w, 1, p + 1), x + 1>> ELSE <<w, x>>
ExpText(x) == (IF x < 0 THEN <<"-">> ELSE <<"+">>) \o (LET d == DecT(Abs(x)) IN Zeros(2 - Len(d)) \o d)
SciText(k, p, alt, E) == LET z == Sci(k, p) IN
  <<z[1][1]>> \o (IF p > 0 \/ alt THEN <<".">> ELSE <<>>) \o SubSeq(z[1], 2, p + 1) \o <<E>> \o ExpText(z[2])
StripF(t) == IF \E i \in 1..Len(t) : t[i] = "." THEN (LET u == TrimZ(t) IN IF Last(u) = "." THEN Front(u) ELSE u) ELSE t
GText(k, p0, alt, E) ==
  LET p == IF p0 = 0 THEN 1 ELSE p0
      z == Sci(k, p - 1) IN
  IF p > z[2] /\ z[2] >= -4
  THEN (LET t == Fixed(k, p - 1 - z[2], alt) IN IF alt THEN t ELSE StripF(t))
  ELSE (LET m == <<z[1][1]>> \o (IF p > 1 \/ alt THEN <<".">> ELSE <<>>) \o SubSeq(z[1], 2, p) IN
        (IF alt THEN m ELSE StripF(m)) \o <<E>> \o ExpText(z[2]))

(* ---------------------------------------------- texts to numbers ---------------------------------------------- *)
RECURSIVE SkipW(_)
SkipW(t) == IF t # <<>> /\ Head(t) \in White THEN SkipW(Tail(t)) ELSE t
Sign(t) == IF t # <<>> /\ Head(t) \in {"-", "+"} THEN <<IF Head(t) = "-" THEN -1 ELSE 1, Tail(t)>> ELSE <<1, t>>
\* the longest run of digits of the base at the front: <<value (capped), number of digits, rest>>
RECURSIVE Run(_, _, _, _)
Run(t, b, v, c) ==
  IF t # <<>> /\ Head(t) \in DOMAIN DVal /\ DVal[Head(t)] < b THEN Run(Tail(t), b, Mn(v * b + DVal[Head(t)], Big + 1), c + 1) ELSE <<v, c, t>>
IsHex(t) == Len(t) >= 2 /\ t[1] = "0" /\ t[2] \in {"x", "X"}
\* outcomes of a conversion: [k |-> "n", v |-> eighths] and the kinds nan, big, odd
NaNV == [k |-> "nan", v |-> 0]
Val(sg, v) == IF v > Big THEN [k |-> "big", v |-> 0] ELSE [k |-> "n", v |-> sg * v * 8]
ParseInt(t0, r) ==
  LET sg == Sign(SkipW(t0))
      t == sg[2]
      hex == IsHex(t) /\ r \in {0, 16} /\ Len(t) >= 3 /\ t[3] \in DOMAIN DVal /\ DVal[t[3]] < 16
      b == IF r # 0 THEN r ELSE IF hex THEN 16 ELSE IF t # <<>> /\ t[1] = "0" THEN 8 ELSE 10
      z == Run(IF hex THEN SubSeq(t, 3, Len(t)) ELSE t, b, 0, 0) IN
  IF z[2] = 0 THEN NaNV ELSE Val(sg[1], z[1])
\* the longest number at the front: <<outcome, rest>>
ParseFloat(t0) ==
  LET sg == Sign(SkipW(t0))
      ip == Run(sg[2], 10, 0, 0)
      dot == ip[3] # <<>> /\ ip[3][1] = "."
      fp == IF dot THEN Run(Tail(ip[3]), 10, ip[1], 0) ELSE <<ip[1], 0, ip[3]>>
      none == ip[2] + fp[2] = 0
      r1 == fp[3]
      es == IF r1 # <<>> /\ r1[1] \in {"e", "E"} THEN Sign(Tail(r1)) ELSE <<1, <<>>>>
      ex == Run(es[2], 10, 0, 0)
      hasE == ex[2] > 0
      \* the digits, and where the point goes
      D == SubSeq(sg[2], 1, ip[2]) \o (IF fp[2] > 0 THEN SubSeq(ip[3], 2, 1 + fp[2]) ELSE <<>>)
      x == IF hasE THEN es[1] * ex[1] ELSE 0
      pos == ip[2] + x
      zero == \A i \in 1..Len(D) : D[i] = "0"
      whole == Run(IF pos <= 0 THEN <<>> ELSE SubSeq(D, 1, Mn(pos, Len(D))) \o Zeros(pos - Len(D)), 10, 0, 0)[1]
      fr == TrimZ(IF pos >= Len(D) THEN <<>> ELSE Zeros(0 - pos) \o SubSeq(D, Mx(pos, 0) + 1, Len(D)))
      rest == IF none THEN t0 ELSE IF hasE THEN ex[3] ELSE r1
      out == IF none THEN NaNV
             ELSE IF zero THEN Val(1, 0)
             ELSE IF x > 40 THEN [k |-> "big", v |-> 0]
             ELSE IF x < -40 THEN [k |-> "odd", v |-> 0]
             ELSE IF whole > Big \/ (whole = Big /\ fr # <<>>) THEN [k |-> "big", v |-> 0]
             ELSE IF Len(fr) > 3 THEN [k |-> "odd", v |-> 0]
             ELSE (LET f8 == Run(fr, 10, 0, 0)[1] * 8 IN
                   IF f8 % Pow(10, Len(fr)) # 0 THEN [k |-> "odd", v |-> 0]
                   ELSE [k |-> "n", v |-> sg[1] * (whole * 8 + f8 \div Pow(10, Len(fr)))]) IN
  <<out, rest>>

(* ------------------------------------------------- format ------------------------------------------------- *)
\* digits of 2^64 - m, for m > 0
Comp(m, b) ==
  IF b = 10 THEN
     LET T == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>
         D == Digs(m, 10)
         P == [i \in 1..(20 - Len(D)) |-> 0] \o D
         B[i \in 1..21] == IF i = 21 THEN 0 ELSE IF T[i] - P[i] - B[i + 1] < 0 THEN 1 ELSE 0 IN
     [i \in 1..20 |-> (T[i] - P[i] - B[i + 1] + 10) % 10]
  ELSE LET w == IF b = 16 THEN 16 ELSE 22
           D == Digs(m - 1, b) IN
       [i \in 1..w |-> (IF b = 8 /\ i = 1 THEN 1 ELSE b - 1) - (IF i > w - Len(D) THEN D[i - (w - Len(D))] ELSE 0)]
\* place a number: sign or prefix, digits, minimal width
Place(pre, d, f, w, zero) ==
  LET c == Len(pre) + Len(d) IN
  IF "-" \in f THEN pre \o d \o Spaces(w - c)
  ELSE IF zero THEN pre \o Zeros(w - c) \o d
  ELSE Spaces(w - c) \o pre \o d
PlaceS(t, f, w) == IF "-" \in f THEN t \o Spaces(w - Len(t)) ELSE IF "0" \in f THEN Zeros(w - Len(t)) \o t ELSE Spaces(w - Len(t)) \o t
SignTxt(neg, f) == IF neg THEN <<"-">> ELSE IF "+" \in f THEN <<"+">> ELSE IF " " \in f THEN <<" ">> ELSE <<>>
AscTab == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?","@",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_","`",
            "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>
\* arg: [t |-> "n"/"s"/"b"/"z", k |-> eighths, v |-> string]; result <<ok, text>>
Bad == <<FALSE, <<>>>>
Conv(ch, f, w, p, arg) ==            \* p: precision, -1 when none was given
  LET v == Trunc(arg.k)
      neg == v < 0
      base == IF ch \in {"x", "X"} THEN 16 ELSE IF ch = "o" THEN 8 ELSE 10
      sgnd == ch \in {"d", "i"}
      d0 == Txt(IF neg /\ ~sgnd THEN Comp(Abs(v), base) ELSE Digs(Abs(v), base), ch = "X")
      d1 == IF v = 0 /\ p = 0 THEN <<>> ELSE d0
      d2 == Zeros(p - Len(d1)) \o d1
      d3 == IF ch = "o" /\ "#" \in f /\ (d2 = <<>> \/ d2[1] # "0") THEN <<"0">> \o d2 ELSE d2
      pre == IF sgnd THEN SignTxt(neg, f) ELSE IF "#" \in f /\ v # 0 /\ base = 16 THEN <<"0", ch>> ELSE <<>>
      P == IF p < 0 THEN 6 ELSE p
      alt == "#" \in f
      k == Abs(arg.k)
      cut(t) == IF p >= 0 THEN SubSeq(t, 1, Mn(p, Len(t))) ELSE t
      any == IF arg.t = "n" THEN Text(arg.k) ELSE IF arg.t = "s" THEN arg.v ELSE IF arg.t = "b" THEN <<"t","r","u","e">> ELSE <<"n","u","l","l">> IN
  CASE ch \in {"d", "i", "u", "x", "X", "o"} -> IF arg.t # "n" THEN Bad ELSE <<TRUE, Place(pre, d3, f, w, "0" \in f /\ p < 0)>>
    [] ch = "f" -> IF arg.t # "n" THEN Bad ELSE <<TRUE, Place(SignTxt(arg.k < 0, f), Fixed(k, P, alt), f, w, "0" \in f)>>
    [] ch \in {"e", "E"} -> IF arg.t # "n" THEN Bad ELSE <<TRUE, Place(SignTxt(arg.k < 0, f), SciText(k, P, alt, ch), f, w, "0" \in f)>>
    [] ch \in {"g", "G"} -> IF arg.t # "n" THEN Bad ELSE IF alt THEN <<TRUE, <<"ctl">>>>        \* (the C library's own rounding is not right there)
                            ELSE <<TRUE, Place(SignTxt(arg.k < 0, f), GText(k, P, alt, IF ch = "g" THEN "e" ELSE "E"), f, w, "0" \in f)>>
    [] ch = "s" -> IF arg.t # "s" THEN Bad ELSE <<TRUE, PlaceS(cut(arg.v), f, w)>>
    [] ch \in {"S", "q"} -> <<TRUE, PlaceS(cut(any), f, w)>>
    [] ch \in {"c", "C"} -> IF arg.t = "s" /\ Len(arg.v) = 1 THEN <<TRUE, PlaceS(arg.v, f, w)>>
                            ELSE IF arg.t = "n" /\ v \in 32..126 THEN <<TRUE, PlaceS(<<AscTab[v - 31]>>, f, w)>>
                            ELSE IF arg.t = "n" /\ v = 233 /\ ch = "C" THEN <<TRUE, PlaceS(<<"eac">>, f, w)>>
                            ELSE IF arg.t = "n" /\ v \in 0..255 THEN <<TRUE, <<"ctl">>>>       \* other characters: not compared
                            ELSE Bad
    [] OTHER -> Bad
RECURSIVE Flags(_, _)
Flags(t, acc) == IF t # <<>> /\ Head(t) \in {"-", "0", " ", "+", "#"} THEN Flags(Tail(t), acc \cup {Head(t)}) ELSE <<acc, t>>
\* a number or a star: <<ok, given, value, rest, arguments left>>
Count(t, args) ==
  IF t # <<>> /\ IsDec(t[1]) THEN (LET z == Run(t, 10, 0, 0) IN <<TRUE, TRUE, z[1], z[3], args>>)
  ELSE IF t # <<>> /\ t[1] = "*" THEN (IF Len(args) < 2 \/ args[1].t # "n" THEN <<FALSE, TRUE, 0, t, args>> ELSE <<TRUE, TRUE, Trunc(args[1].k), Tail(t), Tail(args)>>)
  ELSE <<TRUE, FALSE, 0, t, args>>
Mod(t) == IF t # <<>> /\ t[1] = "h" THEN Tail(t) ELSE IF Len(t) >= 2 /\ t[1] = "l" /\ t[2] = "l" THEN SubSeq(t, 3, Len(t)) ELSE IF t # <<>> /\ t[1] = "l" THEN Tail(t) ELSE t
RECURSIVE Format(_, _, _)
Format(t, args, out) ==
  IF t = <<>> THEN <<TRUE, out>>
  ELSE IF t[1] # "%" THEN Format(Tail(t), args, Append(out, t[1]))
  ELSE IF Len(t) >= 2 /\ t[2] = "%" THEN Format(SubSeq(t, 3, Len(t)), args, Append(out, "%"))
  ELSE IF args = <<>> THEN Bad
  ELSE LET f == Flags(Tail(t), {})
           w == Count(f[2], args)
           dot == w[4] # <<>> /\ w[4][1] = "."
           p == IF dot THEN Count(Tail(w[4]), w[5]) ELSE <<TRUE, FALSE, -1, w[4], w[5]>>
           r == Mod(p[4]) IN
       IF ~w[1] \/ ~p[1] \/ r = <<>> THEN Bad
       ELSE LET ff == IF w[3] < 0 THEN f[1] \cup {"-"} ELSE f[1]
                c == Conv(r[1], ff, Abs(w[3]), IF dot THEN Mx(p[3], -1) ELSE -1, p[5][1]) IN
            IF ~c[1] THEN Bad ELSE Format(Tail(r), Tail(p[5]), out \o c[2])

(* ------------------------------------------------ operations ------------------------------------------------ *)
\* what an argument stands for: the variables n and q, or itself
Arg(s, x) == IF x.t = "N" THEN [t |-> "n", k |-> IF s.nan THEN 56 ELSE s.n, v |-> <<>>]
             ELSE IF x.t = "Q" THEN [t |-> "s", k |-> 0, v |-> s.q] ELSE x
Do(s, e) ==
  LET a == e.a  op == e.op
      Num(st, k) == {[s |-> st, r |-> <<"n", <<ToString(k)>>>>]}
      SetN(o) == CASE o.k = "n" -> Num([s EXCEPT !.n = o.v, !.nan = FALSE], o.v)
                   [] o.k = "nan" -> {[s |-> [s EXCEPT !.nan = TRUE, !.n = 0], r |-> <<"n", <<"nan">>>>]}
                   [] OTHER -> {[s |-> s, r |-> <<"n", <<o.k>>>>]}
      SetQ(t) == {[s |-> [s EXCEPT !.q = t], r |-> <<"s", t>>]}
      Err == {[s |-> s, r |-> <<"e", <<>>>>]}
      Yes(b) == {[s |-> s, r |-> <<"b", <<IF b THEN "true" ELSE "false">>>>]}
      neg(t) == IF s.n < 0 THEN <<"-">> \o t ELSE t IN
  CASE op = "set" -> Num([s EXCEPT !.n = a[1], !.nan = FALSE], a[1])
    [] op = "lit" -> SetQ(a[1])
    [] op = "str" -> SetQ(IF s.nan THEN <<"N", "a", "N">> ELSE Text(s.n))
    [] op = "nstr" -> IF s.nan THEN SetQ(<<"n", "u", "l", "l">>) \cup SetQ(<<"N", "a", "N">>) ELSE SetQ(Text(s.n))
    [] op = "rad" -> IF a[1] < 2 \/ a[1] > 36 THEN Err
                     ELSE IF s.nan \/ s.n % 8 # 0 THEN {[s |-> s, r |-> <<"x", <<>>>>]}          \* (not asked by the script)
                     ELSE LET t == neg(Txt(Digs(Abs(s.n) \div 8, a[1]), FALSE)) IN
                          IF a[1] \in {8, 10, 16} THEN SetQ(t) ELSE SetQ(t) \cup SetQ(Text(s.n))
    [] op = "fix" -> IF a[1] > 100 THEN Err
                     ELSE IF s.nan THEN {[s |-> s, r |-> <<"x", <<>>>>]}
                     ELSE SetQ(neg(Fixed(Abs(s.n), a[1], FALSE)))
    [] op = "exp" -> IF a[1] > 100 THEN Err
                     ELSE IF s.nan THEN {[s |-> s, r |-> <<"x", <<>>>>]}
                     ELSE SetQ(neg(SciText(Abs(s.n), a[1], FALSE, "e")))
    [] op = "pint" -> IF a[1] # 0 /\ (a[1] < 2 \/ a[1] > 36) THEN Err ELSE SetN(ParseInt(s.q, a[1]))
    [] op = "pintn" -> IF s.nan THEN SetN(NaNV) ELSE Num([s EXCEPT !.n = Trunc(s.n) * 8], Trunc(s.n) * 8)
    [] op = "pflt" -> IF Len(s.q) > 20 \/ IsHex(Sign(SkipW(s.q))[2]) THEN {[s |-> s, r |-> <<"x", <<>>>>]}
                      ELSE IF SkipW(s.q) = <<>> THEN SetN(NaNV) \cup SetN(Val(1, 0))
                      ELSE SetN(ParseFloat(s.q)[1])
    [] op = "num" -> IF Len(s.q) > 20 \/ IsHex(Sign(SkipW(s.q))[2]) THEN {[s |-> s, r |-> <<"x", <<>>>>]}
                     ELSE LET z == ParseFloat(s.q)
                              blank == SkipW(s.q) = <<>>
                              all == SkipW(z[2]) = <<>>
                              padded == s.q # <<>> /\ (s.q[1] \in White \/ Last(s.q) \in White) IN
                          IF blank THEN SetN(Val(1, 0)) \cup (IF s.q = <<>> THEN {} ELSE SetN(NaNV))
                          ELSE IF z[1].k = "nan" \/ ~all THEN SetN(NaNV)
                          ELSE SetN(z[1]) \cup (IF padded THEN SetN(NaNV) ELSE {})
    [] op = "kind" -> Yes(CASE a[1] = "isInteger" -> ~s.nan /\ s.n % 8 = 0
                            [] a[1] = "isFinite" -> ~s.nan
                            [] a[1] = "isNaN" -> s.nan
                            [] a[1] = "isSafeInteger" -> ~s.nan /\ s.n % 8 = 0)
    [] op = "rt" -> SetQ(a[1])                  \* a long integer written, read back in several ways and written again
    [] op = "fmt" -> LET args == [i \in 1..Len(a[2]) |-> Arg(s, a[2][i])]
                         z == Format(a[1], args, <<>>) IN
                     IF ~z[1] THEN Err
                     ELSE IF Len(z[2]) > 300 \/ \E i \in 1..Len(z[2]) : z[2][i] = "ctl" THEN Err \cup {[s |-> [s EXCEPT !.q = <<>>], r |-> <<"x", <<>>>>]}
                     ELSE SetQ(z[2])
    [] OTHER -> {}

Inv(s) == s.n \in Int /\ s.q \in Seq(STRING) /\ (s.nan => s.n = 0)
\* writing an integer and reading it again gives it back
StepInv(s, e, t) ==
  /\ (e.op = "str" /\ ~s.nan => ParseFloat(t.q) = <<[k |-> "n", v |-> s.n], <<>>>>)
  /\ (e.op = "rad" /\ e.a[1] \in {8, 10, 16} /\ ~s.nan /\ s.n % 8 = 0 => ParseInt(t.q, e.a[1]) = [k |-> "n", v |-> s.n])
  /\ (e.op \in {"fix", "exp"} /\ ~s.nan /\ t.q # s.q /\ e.a[1] >= 10 => ParseFloat(t.q)[1] = [k |-> "n", v |-> s.n])
=============================================================================
