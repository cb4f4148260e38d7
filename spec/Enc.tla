-------------------------------- MODULE Enc --------------------------------
(* The encodings of jsish as functions over sequences of bytes (0..255): base64 with lines of 72 characters
   (RFC 4648), lowercase hex, URI escapes, CRC-32 (whole or continued), digests (module Digest), reversible
   encryption with a key, and version numbers. The only state is what was encrypted: <<text, key>> per handle.   *)
EXTENDS Integers, Digest, TLC
B64(i) == IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47
UnB64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
Quad(q, o) ==
  LET a == q[o]  b == At(q, o + 1)  c == At(q, o + 2) IN
  <<B64(a \div 4), B64((a % 4) * 16 + (b \div 16)),
    IF o + 1 > Len(q) THEN 61 ELSE B64((b % 16) * 4 + (c \div 64)), IF o + 2 > Len(q) THEN 61 ELSE B64(c % 64)>>
Encode64(q) == Concat([i \in 1..((Len(q) + 2) \div 3) |-> Quad(q, 3 * i - 2)])
\* lines of 72 characters; after a last full line the break may be there or not
RECURSIVE Lines(_)
Lines(t) == IF Len(t) <= 72 THEN t ELSE SubSeq(t, 1, 72) \o <<10>> \o Lines(SubSeq(t, 73, Len(t)))
\* decoding: line breaks are skipped, '=' ends the text
Sextets(t) == LET u == SelectSeq(t, LAMBDA c : c \notin {10, 13, 32})
                  e == CHOOSE n \in 0..Len(u) : (n = Len(u) \/ u[n + 1] = 61) /\ \A j \in 1..n : u[j] # 61 IN
              [i \in 1..e |-> UnB64(u[i])]
Decode64(t) ==
  LET x == Sextets(t)
      n == (Len(x) * 6) \div 8
      byte(i) == LET g == (i \div 3) * 4  k == i % 3 IN       \* i from 0
                 CASE k = 0 -> x[g + 1] * 4 + (x[g + 2] \div 16)
                   [] k = 1 -> (x[g + 2] % 16) * 16 + (x[g + 3] \div 4)
                   [] OTHER -> (x[g + 3] % 4) * 64 + x[g + 4] IN
  [i \in 1..n |-> byte(i - 1)]
HexD(d) == IF d < 10 THEN 48 + d ELSE 87 + d
UnHex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Hex(q) == Concat([i \in 1..Len(q) |-> <<HexD(q[i] \div 16), HexD(q[i] % 16)>>])
IsHex(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : UnHex(t[i]) >= 0
DeHex(t) == [i \in 1..(Len(t) \div 2) |-> UnHex(t[2 * i - 1]) * 16 + UnHex(t[2 * i])]
(* URI: letters and digits stay, the marks -_.!~*'() and % are escaped, the reserved ;,/?:@&=+$# are escaped
   as a component and stay in a whole URI; everything else stays *)
Reserved == {59, 44, 47, 63, 58, 64, 38, 61, 43, 36, 35}
Marks == {45, 95, 46, 33, 126, 42, 39, 40, 41, 37}
Esc(c) == <<37, HexD(c \div 16), HexD(c % 16)>>
Uri(q, comp) == Concat([i \in 1..Len(q) |-> IF q[i] \in Marks \/ (comp /\ q[i] \in Reserved) THEN Esc(q[i]) ELSE <<q[i]>>])
RECURSIVE UnUri(_, _, _)
UnUri(t, comp, out) ==
  IF t = <<>> THEN out
  ELSE IF t[1] = 37 THEN LET c == UnHex(t[2]) * 16 + UnHex(t[3]) IN
       UnUri(SubSeq(t, 4, Len(t)), comp, IF ~comp /\ c \in Reserved THEN out \o SubSeq(t, 1, 3) ELSE Append(out, c))
  ELSE UnUri(Tail(t), comp, Append(out, IF comp /\ t[1] = 43 THEN 32 ELSE t[1]))
\* every % begins an escape, and none stands for NUL
WellUri(t) == \A i \in 1..Len(t) : t[i] = 37 => i + 2 <= Len(t) /\ UnHex(t[i + 1]) >= 0 /\ UnHex(t[i + 2]) >= 0 /\ UnHex(t[i + 1]) + UnHex(t[i + 2]) > 0
Sum(type, q) ==
  CASE type = "md5" -> Md5(q) [] type = "sha1" -> Sha1(q) [] type = "sha256" -> Sha256(q)
    [] type = "sha3_224" -> Sha3(q, 28) [] type = "sha3_256" -> Sha3(q, 32) [] type = "sha3_384" -> Sha3(q, 48) [] OTHER -> Sha3(q, 64)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Dots(v, n) == IF n = 1 THEN Dec(v[1]) ELSE IF n = 2 THEN Dec(v[1]) \o <<46>> \o Dec(v[2]) ELSE Dec(v[1]) \o <<46>> \o Dec(v[2]) \o <<46>> \o Dec(v[3])
\* at most n trailing zero parts are left away
Kept(v, n) == IF n >= 1 /\ v[3] = 0 THEN (IF n >= 2 /\ v[2] = 0 THEN 1 ELSE 2) ELSE 3

Say(s, t) == {[s |-> s, r |-> <<"s", t>>]}
Er(s) == {[s |-> s, r |-> <<"e", <<>>>>]}
Any0(s) == {[s |-> s, r |-> <<"x", <<>>>>]}
Do(s, e) ==
  LET op == e.op  a == e.a IN
  CASE op = "b64"  -> LET t == Encode64(a[1]) IN Say(s, Lines(t)) \cup (IF Len(t) > 0 /\ Len(t) % 72 = 0 THEN Say(s, Append(Lines(t), 10)) ELSE {})
    [] op = "b64d" -> Say(s, Decode64(a[1]))
    [] op = "hex"  -> IF a[1] = <<>> THEN Er(s) \cup Say(s, <<>>) ELSE Say(s, Hex(a[1]))
    [] op = "hexd" -> IF a[1] = <<>> THEN Er(s) \cup Say(s, <<>>) ELSE IF IsHex(a[1]) THEN Say(s, DeHex(a[1])) ELSE Er(s)
    [] op = "uri"  -> Say(s, Uri(a[1], a[2] = "c"))
    [] op = "urid" -> IF WellUri(a[1]) THEN Say(s, UnUri(a[1], a[2] = "c", <<>>)) ELSE Any0(s)
    [] op = "crc"  -> Say(s, LET c == CrcFrom(<<0, 0>>, a[1]) IN BytesBE(c))                          \* a[2]: continued from there
    [] op = "sum"  -> Say(s, IF a[3] = "raw" THEN Sum(a[2], a[1]) ELSE Hex(Sum(a[2], a[1])))          \* a[4]: bytes given as text, the rest in a file
    [] op = "enc"  -> IF a[1] = <<>> THEN Er(s) ELSE {[s |-> [s EXCEPT !.box = Append(@, <<a[1], a[2]>>)], r |-> <<"h", <<>>>>]}      \* hidden
    [] op = "dec"  -> LET b == s.box[a[1]] IN IF a[2] = b[2] THEN Say(s, b[1]) ELSE Any0(s)              \* not the text
    [] op = "decx" -> Er(s)                                                                          \* no possible length
    [] op = "ver"  -> Say(s, <<a[1][1], a[1][2], a[1][3]>>)                                           \* text to number
    [] op = "vers" -> Say(s, Dots(a[1], Kept(a[1], a[2])))                                            \* number to text
    [] OTHER -> {}
Init0 == [box |-> <<>>]
Inv(s) == \A i \in 1..Len(s.box) : s.box[i][1] # <<>>
\* the encodings are inverse to one another, and checksums continue
StepInv(s, e, t) ==
  /\ (e.op = "b64" => Decode64(Encode64(e.a[1])) = e.a[1] /\ Decode64(Lines(Encode64(e.a[1]))) = e.a[1])
  /\ (e.op = "hex" => DeHex(Hex(e.a[1])) = e.a[1])
  /\ (e.op = "uri" => UnUri(Uri(e.a[1], e.a[2] = "c"), e.a[2] = "c", <<>>) = e.a[1])
  /\ (e.op = "crc" => CrcFrom(CrcFrom(<<0, 0>>, SubSeq(e.a[1], 1, e.a[2])), SubSeq(e.a[1], e.a[2] + 1, Len(e.a[1]))) = CrcFrom(<<0, 0>>, e.a[1]))
  /\ (e.op = "sum" => Len(Sum(e.a[2], e.a[1])) = (CASE e.a[2] = "md5" -> 16 [] e.a[2] = "sha1" -> 20 [] e.a[2] = "sha3_224" -> 28 [] e.a[2] = "sha3_384" -> 48 [] e.a[2] = "sha3_512" -> 64 [] OTHER -> 32))
=============================================================================
