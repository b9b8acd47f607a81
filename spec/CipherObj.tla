------------------------------ MODULE CipherObj ------------------------------
(* Cipher objects: keyed block ciphers and modes of operation.  Deciphering is  *)
(* specified through its inverse: an answer p to deciphering c is right exactly *)
(* when enciphering p gives c, so only the published forward direction is used. *)
EXTENDS Cipher, FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL Upto(n) == [k \in 1..n |-> k]
None == [kind |-> "none", c |-> "", m |-> "", key |-> <<>>, nonce |-> <<>>, msg |-> -1, buf |-> <<>>, by |-> <<>>]
CONSTANT NObj
CipherObjInit(cfg) == [i \in 1..NObj |-> None]
LOCAL Z(n) == [k \in 1..n |-> 0]
EcbAll(c, key, t) == Encipher(c, "ecb", key, <<>>, t)
PadLen(c, n) == BlockLen(c) - (n % BlockLen(c))
FullLen(c, m, n) == IF m = "cfb" THEN n ELSE n + PadLen(c, n)
\* how many leading bytes of the ciphertext the message determines
Fixed(c, m, n) == IF m \in {"cbc", "ecb"} THEN n - (n % BlockLen(c)) ELSE n
\* the first k bytes of the ciphertext of msg (padded with zeros to whole blocks)
Body(c, m, key, nonce, msg, k) ==
  LET t == IF m = "cfb" THEN msg ELSE msg \o Z(PadLen(c, Len(msg))) IN SubSeq(Encipher(c, m, key, nonce, t), 1, k)
EncOK(c, m, key, nonce, msg, r) ==      \* r: everything the call left in the buffer
  /\ Len(r) = FullLen(c, m, Len(msg))
  /\ SubSeq(r, 1, Fixed(c, m, Len(msg))) = Body(c, m, key, nonce, msg, Fixed(c, m, Len(msg)))
DecOK(c, m, key, nonce, buf, r) == Len(r) = Len(buf) /\ Encipher(c, m, key, nonce, r) = buf
PadOK(c, m, n, r) == m = "cfb" \/ r[Len(r)] = PadLen(c, n) - 1

Res(ok, s, want) == [ok |-> ok, s |-> s, want |-> want]
CipherObjStep(s, e) ==
  LET a == e.a  r == e.r
      i == IF e.op \in {"blk", "mode", "chacha"} THEN 1 ELSE a[1]
      b == s[i]
      Put(x) == [s EXCEPT ![i] = x]
      Is(x, v) == Res(r = v, Put(x), v)
  IN
  CASE e.op = "blk" ->          \* c, key, blocks: all enciphered, all deciphered
         LET w == EcbAll(a[1], a[2], a[3]) IN
         Res(r[1] = w /\ Len(r[2]) = Len(a[3]) /\ EcbAll(a[1], a[2], r[2]) = a[3] /\ r[3] = BlockLen(a[1]), s, <<w, "inverse">>)
    [] e.op = "chacha" ->       \* key, counter, nonce, block
         LET w == XorB(ChachaKey(a[1], a[2], a[3]), a[4]) IN Res(r = w, s, w)
    [] e.op = "mode" ->         \* c, m, key, nonce, msg -> <<buffer, its deciphering, deciphering at the message's length, nonce>>
         LET c == a[1]  m == a[2]  n == Len(a[5]) IN
         Res(/\ EncOK(c, m, a[3], a[4], a[5], r[1])
             /\ DecOK(c, m, a[3], a[4], r[1], r[2])
             /\ SubSeq(r[2], 1, n) = a[5] /\ PadOK(c, m, n, r[2])
             /\ r[3] = a[5] /\ r[4] = a[4],
             s, <<Body(c, m, a[3], a[4], a[5], Fixed(c, m, n)), a[5]>>)
    [] e.op = "new" -> Is([None EXCEPT !.kind = "mode", !.c = a[2], !.m = a[3]], BlockLen(a[2]))
    [] e.op = "key" -> Is([b EXCEPT !.key = a[2]], 0)
    [] e.op = "nonce" -> Is([b EXCEPT !.nonce = a[2]], 0)
    [] e.op = "zero" -> Is([b EXCEPT !.nonce = Z(BlockLen(b.c)) \o <<>>], 0)
    [] e.op = "get" -> IF b.nonce # <<>> THEN Is(b, b.nonce)
                       ELSE Res(Len(r) = BlockLen(b.c) /\ (b.m = "ctr" => \A k \in (Len(r) \div 2 + 1)..Len(r) : r[k] = 0),
                                Put([b EXCEPT !.nonce = r]), "a nonce")
    [] e.op = "enc" -> Res(EncOK(b.c, b.m, b.key, b.nonce, a[2], r), Put([b EXCEPT !.msg = Len(a[2]), !.buf = r, !.by = <<b.key, b.nonce>>]),
                           Body(b.c, b.m, b.key, b.nonce, a[2], Fixed(b.c, b.m, Len(a[2]))))
    [] e.op = "dec" ->          \* object i deciphers the buffer of object j
         LET j == a[2] IN
         Res(DecOK(b.c, b.m, b.key, b.nonce, s[j].buf, r) /\ (s[j].by = <<b.key, b.nonce>> => PadOK(b.c, b.m, s[j].msg, r)),
             s, "the inverse")
    [] e.op = "del" -> Is(None, 0)

(* random walks *)
CipherObjApply(s, o) ==
  LET a == o.a  i == a[1]  b == s[i]
      Put(x) == [s EXCEPT ![i] = x]
  IN CASE o.op = "new" -> Put([None EXCEPT !.kind = "mode", !.c = a[2], !.m = a[3]])
       [] o.op = "key" -> Put([b EXCEPT !.key = a[2]])
       [] o.op = "nonce" -> Put([b EXCEPT !.nonce = a[2]])
       [] o.op \in {"zero", "get"} -> Put([b EXCEPT !.nonce = <<0>>])
       [] o.op = "enc" -> Put([b EXCEPT !.msg = Len(a[2])])
       [] o.op = "dec" -> s
       [] o.op = "del" -> Put(None)
Rnd(n) == [k \in 1..n |-> RandomElement(0..255)] \o <<>>
Pool == <<<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32>>,
          [k \in 1..32 |-> (k * k * 7 + 3) % 256], [k \in 1..32 |-> IF k % 5 = 0 THEN 0 ELSE 255 - k]>>
\* keys and nonces from small pools, so that objects meet on the same ones
RKey(c) == SubSeq(Pool[RandomElement(1..3)], 1, RandomElement(KeyLens(c)))
RNonce(c) == LET p == Pool[RandomElement(1..2)] IN SubSeq(p \o p, 1, BlockLen(c) - 3) \o RandomElement({<<0, 0, 0>>, <<0, 255, 254>>, <<3, 255, 255>>})
RLen == RandomElement({0, 1, 2, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70, 128})
Opt(c, q) == IF c THEN q ELSE <<>>
OpsAt(s, i) ==
  LET b == s[i]
      mates == {j \in 1..NObj : s[j].kind = "mode" /\ s[j].c = b.c /\ s[j].m = b.m /\ s[j].msg >= 0}
      o == {j \in 1..NObj : s[j].kind = "mode"}
      New(c, m) == <<[op |-> "new", a |-> <<i, c, m>>]>>
  IN IF b.kind = "none"
     THEN \* often the same cipher and mode as another object
          IF o # {} /\ RandomElement(1..3) > 1 THEN CHOOSE q \in {New(s[j].c, s[j].m) : j \in {RandomElement(o)}} : TRUE
          ELSE New(RandomElement(Ciphers), RandomElement(Modes))
     ELSE IF b.key = <<>> THEN <<[op |-> "key", a |-> <<i, RKey(b.c)>>]>>
     ELSE IF b.nonce = <<>> THEN <<[op |-> "nonce", a |-> <<i, RNonce(b.c)>>], [op |-> "get", a |-> <<i>>]>>
     ELSE <<[op |-> "enc", a |-> <<i, Rnd(RLen)>>], [op |-> "enc", a |-> <<i, Rnd(RLen)>>], [op |-> "key", a |-> <<i, RKey(b.c)>>],
            [op |-> "nonce", a |-> <<i, RNonce(b.c)>>], [op |-> "get", a |-> <<i>>]>>
          \o Opt(RandomElement(1..8) = 1, <<[op |-> "del", a |-> <<i>>], [op |-> "zero", a |-> <<i>>]>>)
          \o Opt(mates # {}, <<[op |-> "dec", a |-> <<i, RandomElement(mates)>>], [op |-> "dec", a |-> <<i, RandomElement(mates)>>]>>)
CipherObjOps(s) == CHOOSE q \in {OpsAt(s, i) : i \in {RandomElement(1..NObj)}} : TRUE
=============================================================================
