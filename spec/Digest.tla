------------------------------- MODULE Digest -------------------------------
(* CRC-32, MD5, SHA-1, SHA-256 and SHA-3 over sequences of bytes (0..255), from their standards (RFC 1321,
   FIPS 180-4, FIPS 202). A 32-bit word is <<high half, low half>>, a 64-bit lane four halves, high first. *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise
B16 == 65536
P2 == [i \in 0..16 |-> <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>[i + 1]]
Add(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + (l \div B16)) % B16, l % B16>>
Add3(x, y, z) == Add(Add(x, y), z)
X2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
A2(x, y) == <<x[1] & y[1], x[2] & y[2]>>
O2(x, y) == <<x[1] | y[1], x[2] | y[2]>>
N2(x) == <<65535 - x[1], 65535 - x[2]>>
ShR(x, n) == IF n >= 16 THEN <<0, x[1] \div P2[n - 16]>> ELSE <<x[1] \div P2[n], (x[2] \div P2[n]) + (x[1] % P2[n]) * P2[16 - n]>>
RotL(x, n) == LET y == IF n >= 16 THEN <<x[2], x[1]>> ELSE x
                  k == n % 16 IN
              <<(y[1] % P2[16 - k]) * P2[k] + (y[2] \div P2[16 - k]), (y[2] % P2[16 - k]) * P2[k] + (y[1] \div P2[16 - k])>>
RotR(x, n) == RotL(x, 32 - n)
Upto(n) == [i \in 1..n |-> i - 1]
Rep(b, n) == [i \in 1..n |-> b]
PadTo(q, unit, keep) == Rep(0, (unit - ((Len(q) + 1 + keep) % unit)) % unit)
\* message padding of MD5 (little endian length) and SHA-1/2 (big endian); messages shorter than 2^20 bytes
LenBE(n) == <<0, 0, 0, 0, (n * 8) \div 16777216, ((n * 8) \div 65536) % 256, ((n * 8) \div 256) % 256, (n * 8) % 256>>
PadBE(q) == q \o <<128>> \o PadTo(q, 64, 8) \o LenBE(Len(q))
PadLE(q) == q \o <<128>> \o PadTo(q, 64, 8) \o Reverse(LenBE(Len(q)))
WordBE(m, i) == <<m[i] * 256 + m[i + 1], m[i + 2] * 256 + m[i + 3]>>
WordLE(m, i) == <<m[i + 3] * 256 + m[i + 2], m[i + 1] * 256 + m[i]>>
BytesBE(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
BytesLE(w) == Reverse(BytesBE(w))
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Blocks(m) == [b \in 1..(Len(m) \div 64) |-> (b - 1) * 64]
(* ---- CRC-32 ---- *)
CrcByte(c, b) == FoldLeft(LAMBDA x, i : LET h == ShR(x, 1) IN IF x[2] % 2 = 1 THEN X2(h, <<60856, 33568>>) ELSE h, X2(c, <<0, b>>), Upto(8))
CrcFrom(c, q) == N2(FoldLeft(CrcByte, N2(c), q))
(* ---- SHA-256 ---- *)
K256 == <<<<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>, <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>, <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>, <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>, <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>, <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>, <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>, <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>, <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>, <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>, <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>, <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>, <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>, <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>, <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>, <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>>>>
H256 == <<<<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>, <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>>>>
Sched256(m, o) ==
  FoldLeft(LAMBDA W, t : LET a == W[t - 2]  b == W[t - 15]
                             s0 == X2(X2(RotR(b, 7), RotR(b, 18)), ShR(b, 3))
                             s1 == X2(X2(RotR(a, 17), RotR(a, 19)), ShR(a, 10)) IN
                         Append(W, Add(Add(s1, W[t - 7]), Add(s0, W[t - 16]))),
           [i \in 1..16 |-> WordBE(m, o + 4 * i - 3)], [i \in 1..48 |-> i + 16])
Round256(v, x) ==     \* v: a..h, x: the round's word and constant added
  LET e == v[5]
      t1 == Add(Add3(v[8], X2(X2(RotR(e, 6), RotR(e, 11)), RotR(e, 25)), X2(A2(e, v[6]), A2(N2(e), v[7]))), x)
      t2 == Add(X2(X2(RotR(v[1], 2), RotR(v[1], 13)), RotR(v[1], 22)), X2(X2(A2(v[1], v[2]), A2(v[1], v[3])), A2(v[2], v[3]))) IN
  <<Add(t1, t2), v[1], v[2], v[3], Add(v[4], t1), v[5], v[6], v[7]>>
Sha256(q) ==
  LET m == PadBE(q)
      z == FoldLeft(LAMBDA h, o : LET W == Sched256(m, o)
                                      v == FoldLeft(Round256, h, [i \in 1..64 |-> Add(W[i], K256[i])]) IN
                                  [i \in 1..8 |-> Add(h[i], v[i])], H256, Blocks(m)) IN
  Concat([i \in 1..8 |-> BytesBE(z[i])])
(* ---- SHA-1 ---- *)
H160 == <<<<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>, <<50130,57840>>>>
K160 == <<<<23170,31129>>, <<28377,60321>>, <<36635,48348>>, <<51810,49622>>>>
Sched160(m, o) ==
  FoldLeft(LAMBDA W, t : Append(W, RotL(X2(X2(W[t - 3], W[t - 8]), X2(W[t - 14], W[t - 16])), 1)),
           [i \in 1..16 |-> WordBE(m, o + 4 * i - 3)], [i \in 1..64 |-> i + 16])
Sha1(q) ==
  LET m == PadBE(q)
      z == FoldLeft(LAMBDA h, o :
             LET W == Sched160(m, o)
                 v == FoldLeft(LAMBDA u, t :
                        LET ph == (t \div 20) + 1
                            f == CASE ph = 1 -> O2(A2(u[2], u[3]), A2(N2(u[2]), u[4]))
                                   [] ph = 3 -> O2(O2(A2(u[2], u[3]), A2(u[2], u[4])), A2(u[3], u[4]))
                                   [] OTHER -> X2(X2(u[2], u[3]), u[4]) IN
                        <<Add(Add3(RotL(u[1], 5), f, u[5]), Add(K160[ph], W[t + 1])), u[1], RotL(u[2], 30), u[3], u[4]>>, h, Upto(80)) IN
             [i \in 1..5 |-> Add(h[i], v[i])], H160, Blocks(m)) IN
  Concat([i \in 1..5 |-> BytesBE(z[i])])
(* ---- MD5 ---- *)
KMd5 == <<<<55146,42104>>, <<59591,46934>>, <<9248,28891>>, <<49597,52974>>, <<62844,4015>>, <<18311,50730>>, <<43056,17939>>, <<64838,38145>>, <<27008,39128>>, <<35652,63407>>, <<65535,23473>>, <<35164,55230>>, <<27536,4386>>, <<64920,29075>>, <<42617,17294>>, <<18868,2081>>, <<63006,9570>>, <<49216,45888>>, <<9822,23121>>, <<59830,51114>>, <<54831,4189>>, <<580,5203>>, <<55457,59009>>, <<59347,64456>>, <<8673,52710>>, <<49975,2006>>, <<62677,3463>>, <<17754,5357>>, <<43491,59653>>, <<64751,41976>>, <<26479,729>>, <<36138,19594>>, <<65530,14658>>, <<34673,63105>>, <<28061,24866>>, <<64997,14348>>, <<42174,59972>>, <<19422,53161>>, <<63163,19296>>, <<48831,48240>>, <<10395,32454>>, <<60065,10234>>, <<54511,12421>>, <<1160,7429>>, <<55764,53305>>, <<59099,39397>>, <<8098,31992>>, <<50348,22117>>, <<62505,8772>>, <<17194,65431>>, <<43924,9127>>, <<64659,41017>>, <<25947,22979>>, <<36620,52370>>, <<65519,62589>>, <<34180,24017>>, <<28584,32335>>, <<65068,59104>>, <<41729,17172>>, <<19976,4513>>, <<63315,32386>>, <<48442,62005>>, <<10967,53947>>, <<60294,54161>>>>
SMd5 == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
HMd5 == <<<<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>>>
Md5(q) ==
  LET m == PadLE(q)
      z == FoldLeft(LAMBDA h, o :
             LET v == FoldLeft(LAMBDA u, t :
                        LET ph == (t \div 16) + 1
                            f == CASE ph = 1 -> O2(A2(u[2], u[3]), A2(N2(u[2]), u[4]))
                                   [] ph = 2 -> O2(A2(u[4], u[2]), A2(N2(u[4]), u[3]))
                                   [] ph = 3 -> X2(X2(u[2], u[3]), u[4])
                                   [] OTHER -> X2(u[3], O2(u[2], N2(u[4])))
                            g == (CASE ph = 1 -> t [] ph = 2 -> 5 * t + 1 [] ph = 3 -> 3 * t + 5 [] OTHER -> 7 * t) % 16
                            k == Add(Add3(u[1], f, KMd5[t + 1]), WordLE(m, o + 4 * g + 1)) IN
                        <<u[4], Add(u[2], RotL(k, SMd5[ph][(t % 4) + 1])), u[2], u[3]>>, h, Upto(64)) IN
             [i \in 1..4 |-> Add(h[i], v[i])], HMd5, Blocks(m)) IN
  Concat([i \in 1..4 |-> BytesLE(z[i])])
(* ---- SHA-3 ---- *)
RC3 == <<<<0,0,0,1>>, <<0,0,0,32898>>, <<32768,0,0,32906>>, <<32768,0,32768,32768>>, <<0,0,0,32907>>, <<0,0,32768,1>>, <<32768,0,32768,32897>>, <<32768,0,0,32777>>, <<0,0,0,138>>, <<0,0,0,136>>, <<0,0,32768,32777>>, <<0,0,32768,10>>, <<0,0,32768,32907>>, <<32768,0,0,139>>, <<32768,0,0,32905>>, <<32768,0,0,32771>>, <<32768,0,0,32770>>, <<32768,0,0,128>>, <<0,0,0,32778>>, <<32768,0,32768,10>>, <<32768,0,32768,32897>>, <<32768,0,0,32896>>, <<0,0,32768,1>>, <<32768,0,32768,32776>>>>
Rot3 == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>
X4(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
RotL4(x, n) == LET d == n \div 16  k == n % 16
                   h(i) == x[((i - 1 + d) % 4) + 1] IN
               IF k = 0 THEN <<h(1), h(2), h(3), h(4)>>
               ELSE [i \in 1..4 |-> (h(i) % P2[16 - k]) * P2[k] + (h((i % 4) + 1) \div P2[16 - k])]
Lane(A, x, y) == A[(x % 5) + 5 * (y % 5) + 1]
Keccak(A0) ==
  FoldLeft(LAMBDA A, r :
    LET C == [i \in 1..5 |-> X4(X4(X4(A[i], A[i + 5]), X4(A[i + 10], A[i + 15])), A[i + 20])]
        D == [i \in 1..5 |-> X4(C[((i + 3) % 5) + 1], RotL4(C[(i % 5) + 1], 1))]
        T == [i \in 1..25 |-> RotL4(X4(A[i], D[((i - 1) % 5) + 1]), Rot3[i])]
        \* B[y, 2x + 3y] = T[x, y]: the source of lane (X, Y) is (x, y) with y = X and 2x + 3X = Y (mod 5)
        B == [i \in 1..25 |-> LET X == (i - 1) % 5  Y == (i - 1) \div 5 IN Lane(T, 3 * Y + X, X)]
        E == [i \in 1..25 |-> LET X == (i - 1) % 5  Y == (i - 1) \div 5  n == Lane(B, X + 1, Y)
                               IN X4(B[i], LET m == Lane(B, X + 2, Y) IN [j \in 1..4 |-> (65535 - n[j]) & m[j]])] IN
    [E EXCEPT ![1] = X4(@, RC3[r])], A0, [i \in 1..24 |-> i])
Sha3(q, size) ==       \* size: bytes of the digest
  LET rate == 200 - 2 * size
      p0 == rate - (Len(q) % rate)
      m == q \o (IF p0 = 1 THEN <<134>> ELSE <<6>> \o Rep(0, p0 - 2) \o <<128>>)
      lane(o, i) == [j \in 1..4 |-> m[o + 8 * i - 2 * j + 2] * 256 + m[o + 8 * i - 2 * j + 1]]
      z == FoldLeft(LAMBDA A, o : Keccak([i \in 1..25 |-> IF i <= rate \div 8 THEN X4(A[i], lane(o, i)) ELSE A[i]]),
                    [i \in 1..25 |-> <<0, 0, 0, 0>>], [b \in 1..(Len(m) \div rate) |-> (b - 1) * rate])
      out == Concat([i \in 1..8 |-> LET l == z[i] IN Concat([j \in 1..4 |-> <<l[5 - j] % 256, l[5 - j] \div 256>>])]) IN
  SubSeq(out, 1, size)
=============================================================================
