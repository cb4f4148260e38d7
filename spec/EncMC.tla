------------------------------- MODULE EncMC -------------------------------
(* Exhaustive exploration: short texts (all lengths around the units of the encodings), two steps. *)
EXTENDS Enc
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {Init0}
Canon(st) == st
Pat(n, k) == [i \in 1..n |-> (i * k * 37 + k * 11 + n) % 256]
Txt(n, k) == LET A == <<97, 37, 43, 47, 32, 90, 38, 39, 195, 169, 61, 48, 35, 126, 34, 63>> IN [i \in 1..n |-> IF A[((i * k + n) % 16) + 1] \in {195, 169} THEN (IF i % 2 = 1 /\ i < n THEN 88 ELSE 89) ELSE A[((i * k + n) % 16) + 1]]
Lens == {0, 1, 2, 3, 4, 5} \cup IF Big THEN {8, 53, 54, 55, 56, 64, 108} ELSE {54}
Qs == {Pat(n, k) : n \in Lens, k \in {1, 2}}
Us == {Txt(n, k) : n \in Lens, k \in {1, 3}}
Keys == {<<107>>, <<107, 50>>, [i \in 1..32 |-> 64 + i], [i \in 1..32 |-> IF i = 32 THEN 65 ELSE 64 + i]}
Op(o, args) == [op |-> o, a |-> args]
SmallOps(st) ==
  IF Len(st.box) = 0 THEN
     {Op("b64", <<q>>) : q \in Qs} \cup {Op("b64d", <<Encode64(q)>>) : q \in Qs} \cup {Op("b64d", <<Lines(Encode64(q))>>) : q \in Qs}
     \cup {Op("hex", <<q>>) : q \in Qs} \cup {Op("hexd", <<Hex(q)>>) : q \in Qs} \cup {Op("hexd", <<q>>) : q \in {<<48>>, <<48, 103>>, <<103, 48>>, <<65, 102>>, <<48, 48, 49>>}}
     \cup {Op("uri", <<q, c>>) : q \in Us, c \in {"c", "u"}} \cup {Op("urid", <<Uri(q, d = "c"), c>>) : q \in Us, c \in {"c", "u"}, d \in {"c", "u"}}
     \cup {Op("crc", <<q, i>>) : q \in {x \in Qs : Len(x) > 1}, i \in {0, 1}}
     \cup {Op("sum", <<q, t, f, i>>) : q \in IF Big THEN Qs ELSE {Pat(3, 1), Pat(54, 2)}, t \in {"md5", "sha1", "sha256", "sha3_224", "sha3_256", "sha3_384", "sha3_512"}, f \in {"hex"}, i \in {0}}
     \cup {Op("enc", <<q, k>>) : q \in Qs, k \in Keys} \cup {Op("decx", <<Pat(n, 1)>>) : n \in {2, 3, 4, 6, 8}}
     \cup {Op("ver", <<<<i, j, k>>>>) : i, j, k \in {0, 1, 10}} \cup {Op("vers", <<<<i, j, k>>, t>>) : i, j, k \in {0, 1, 10}, t \in 0..2}
  ELSE {Op("dec", <<1, k>>) : k \in Keys} \cup {Op("b64d", <<Encode64(Pat(3, 1))>>)}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
