-------------------------------- MODULE Hash --------------------------------
(* The hash functions, from their publications: MD5 (RFC 1321), SHA-1 and       *)
(* SHA-2 (FIPS 180-4), Keccak (the SHA-3 submission, padding 10*1), CRC-64      *)
(* (ISO 3309), and HMAC (RFC 2104).                                             *)
EXTENDS Words, HashConst, TLC
LOCAL INSTANCE SequencesExt
LOCAL Upto(n) == [k \in 1..n |-> k]
LOCAL Ix16 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>
LOCAL T(f) == f \o <<>>          \* a function evaluated once into a tuple
LOCAL Zeros(n) == [k \in 1..n |-> 0]
LOCAL Cat(ws) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ws)

(* Merkle-Damgaard padding: 0x80, zeros, bit length in lb bytes *)
LOCAL LenBytes(n, lb) == [k \in 1..lb |-> LET e == lb - k IN IF e > 3 THEN 0 ELSE ((8 * n) \div 256^e) % 256]
LOCAL PadMD(msg, bs, lb, le) ==
  LET n == Len(msg)
      z == (bs - ((n + 1 + lb) % bs)) % bs
      lenb == LenBytes(n, lb)
  IN msg \o <<128>> \o Zeros(z) \o (IF le THEN [k \in 1..lb |-> lenb[lb + 1 - k]] ELSE lenb)

(* ---- MD5 ---- *)
LOCAL MD5S == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
LOCAL MD5Step(w, st, i) ==
  LET j == i - 1
      q == j \div 16
      b == st[2]  c == st[3]  d == st[4]
      f == CASE q = 0 -> O2(A2(b, c), A2(N2(b), d))
             [] q = 1 -> O2(A2(d, b), A2(N2(d), c))
             [] q = 2 -> X2(b, X2(c, d))
             [] q = 3 -> X2(c, O2(b, N2(d)))
      g == CASE q = 0 -> j
             [] q = 1 -> (5 * j + 1) % 16
             [] q = 2 -> (3 * j + 5) % 16
             [] q = 3 -> (7 * j) % 16
      t == Add2(Add2(st[1], f), Add2(MD5T[i], w[g + 1]))
  IN <<d, Add2(b, Rl2(t, MD5S[q + 1][(j % 4) + 1])), b, c>>
LOCAL MD5Block(m, h, k) ==
  LET w == FoldLeft(LAMBDA acc, i : Append(acc, Le2(m, 64 * (k - 1) + 4 * i - 3)), <<>>, Ix16)
      r == FoldLeft(LAMBDA st, i : MD5Step(w, st, i), h, Upto(64))
  IN <<Add2(h[1], r[1]), Add2(h[2], r[2]), Add2(h[3], r[3]), Add2(h[4], r[4])>>
MD5(msg) ==
  LET m == PadMD(msg, 64, 8, TRUE)
      h == FoldLeft(LAMBDA st, k : MD5Block(m, st, k),
                    <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>>>, Upto(Len(m) \div 64))
  IN LeBytes2(h[1]) \o LeBytes2(h[2]) \o LeBytes2(h[3]) \o LeBytes2(h[4])

(* ---- SHA-1 ---- *)
LOCAL S1K == <<<<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>>>>
LOCAL S1Step(w, st, i) ==
  LET b == st[2]  c == st[3]  d == st[4]
      q == (i - 1) \div 20
      f == CASE q = 0 -> O2(A2(b, c), A2(N2(b), d))
             [] q \in {1, 3} -> X2(b, X2(c, d))
             [] q = 2 -> O2(A2(b, c), O2(A2(b, d), A2(c, d)))
      t == Add2(Add2(Rl2(st[1], 5), f), Add2(st[5], Add2(S1K[q + 1], w[i])))
  IN <<t, st[1], Rl2(b, 30), c, d>>
LOCAL S1Block(m, h, k) ==
  LET w0 == FoldLeft(LAMBDA acc, i : Append(acc, Be2(m, 64 * (k - 1) + 4 * i - 3)), <<>>, Ix16)
      w == FoldLeft(LAMBDA acc, i : LET n == Len(acc) IN
                    Append(acc, Rl2(X2(X2(acc[n - 2], acc[n - 7]), X2(acc[n - 13], acc[n - 15])), 1)), w0, Upto(64))
      r == FoldLeft(LAMBDA st, i : S1Step(w, st, i), h, Upto(80))
  IN <<Add2(h[1], r[1]), Add2(h[2], r[2]), Add2(h[3], r[3]), Add2(h[4], r[4]), Add2(h[5], r[5])>>
SHA1(msg) ==
  LET m == PadMD(msg, 64, 8, FALSE)
      h == FoldLeft(LAMBDA st, k : S1Block(m, st, k),
             <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>, Upto(Len(m) \div 64))
  IN Cat(<<BeBytes2(h[1]), BeBytes2(h[2]), BeBytes2(h[3]), BeBytes2(h[4]), BeBytes2(h[5])>>)

(* ---- SHA-256 family ---- *)
LOCAL S2Step(w, st, i) ==
  LET a == st[1]  b == st[2]  c == st[3]  e == st[5]  f == st[6]  g == st[7]
      s1 == X2(Rr2(e, 6), X2(Rr2(e, 11), Rr2(e, 25)))
      ch == X2(A2(e, f), A2(N2(e), g))
      t1 == Add2(Add2(st[8], s1), Add2(ch, Add2(K256[i], w[i])))
      s0 == X2(Rr2(a, 2), X2(Rr2(a, 13), Rr2(a, 22)))
      mj == X2(A2(a, b), X2(A2(a, c), A2(b, c)))
  IN <<Add2(t1, Add2(s0, mj)), a, b, c, Add2(st[4], t1), e, f, g>>
LOCAL S2Sched(acc) ==
  LET n == Len(acc)
      x == acc[n - 14]  y == acc[n - 1]
      s0 == X2(Rr2(x, 7), X2(Rr2(x, 18), Sr2(x, 3)))
      s1 == X2(Rr2(y, 17), X2(Rr2(y, 19), Sr2(y, 10)))
  IN Append(acc, Add2(Add2(acc[n - 15], s0), Add2(acc[n - 6], s1)))
LOCAL S2Block(m, h, k) ==
  LET w0 == FoldLeft(LAMBDA acc, i : Append(acc, Be2(m, 64 * (k - 1) + 4 * i - 3)), <<>>, Ix16)
      w == FoldLeft(LAMBDA acc, i : S2Sched(acc), w0, Upto(48))
      r == FoldLeft(LAMBDA st, i : S2Step(w, st, i), h, Upto(64))
  IN <<Add2(h[1], r[1]), Add2(h[2], r[2]), Add2(h[3], r[3]), Add2(h[4], r[4]),
       Add2(h[5], r[5]), Add2(h[6], r[6]), Add2(h[7], r[7]), Add2(h[8], r[8])>>
LOCAL SHA32(msg, h0, n) ==
  LET m == PadMD(msg, 64, 8, FALSE)
      h == FoldLeft(LAMBDA st, k : S2Block(m, st, k), h0, Upto(Len(m) \div 64))
  IN SubSeq(FoldLeft(LAMBDA acc, x : acc \o BeBytes2(x), <<>>, h), 1, n)
SHA256(msg) == SHA32(msg, H256, 32)
SHA224(msg) == SHA32(msg, H224, 28)

(* ---- SHA-512 family ---- *)
LOCAL S5Step(w, st, i) ==
  LET a == st[1]  b == st[2]  c == st[3]  e == st[5]  f == st[6]  g == st[7]
      s1 == X4(Rr4(e, 14), X4(Rr4(e, 18), Rr4(e, 41)))
      ch == X4(A4(e, f), A4(N4(e), g))
      t1 == Add4(Add4(st[8], s1), Add4(ch, Add4(K512[i], w[i])))
      s0 == X4(Rr4(a, 28), X4(Rr4(a, 34), Rr4(a, 39)))
      mj == X4(A4(a, b), X4(A4(a, c), A4(b, c)))
  IN <<Add4(t1, Add4(s0, mj)), a, b, c, Add4(st[4], t1), e, f, g>>
LOCAL S5Sched(acc) ==
  LET n == Len(acc)
      x == acc[n - 14]  y == acc[n - 1]
      s0 == X4(Rr4(x, 1), X4(Rr4(x, 8), Sr4(x, 7)))
      s1 == X4(Rr4(y, 19), X4(Rr4(y, 61), Sr4(y, 6)))
  IN Append(acc, Add4(Add4(acc[n - 15], s0), Add4(acc[n - 6], s1)))
LOCAL S5Block(m, h, k) ==
  LET w0 == FoldLeft(LAMBDA acc, i : Append(acc, Be4(m, 128 * (k - 1) + 8 * i - 7)), <<>>, Ix16)
      w == FoldLeft(LAMBDA acc, i : S5Sched(acc), w0, Upto(64))
      r == FoldLeft(LAMBDA st, i : S5Step(w, st, i), h, Upto(80))
  IN <<Add4(h[1], r[1]), Add4(h[2], r[2]), Add4(h[3], r[3]), Add4(h[4], r[4]),
       Add4(h[5], r[5]), Add4(h[6], r[6]), Add4(h[7], r[7]), Add4(h[8], r[8])>>
LOCAL SHA64(msg, h0, n) ==
  LET m == PadMD(msg, 128, 16, FALSE)
      h == FoldLeft(LAMBDA st, k : S5Block(m, st, k), h0, Upto(Len(m) \div 128))
  IN SubSeq(FoldLeft(LAMBDA acc, x : acc \o BeBytes4(x), <<>>, h), 1, n)
SHA512(msg) == SHA64(msg, H512, 64)
SHA384(msg) == SHA64(msg, H384, 48)

(* ---- Keccak-f[1600]; lane (x, y) is element 5y + x + 1 ---- *)
LOCAL KRot == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>
LOCAL Ix25 == [k \in 1..25 |-> k]
LOCAL Ix5 == <<1, 2, 3, 4, 5>>
LOCAL KRound(a, i) ==
  LET c == FoldLeft(LAMBDA acc, x : Append(acc, X4(X4(a[x], a[x + 5]), X4(a[x + 10], X4(a[x + 15], a[x + 20])))), <<>>, Ix5)
      d == FoldLeft(LAMBDA acc, x : Append(acc, X4(c[((x + 3) % 5) + 1], Rl4(c[(x % 5) + 1], 1))), <<>>, Ix5)
      t == FoldLeft(LAMBDA acc, k : Append(acc, Rl4(X4(a[k], d[((k - 1) % 5) + 1]), KRot[k])), <<>>, Ix25)
      \* B[y, 2x+3y] = t[x, y], hence B[X, Y] comes from x = X + 3Y, y = X
      b == FoldLeft(LAMBDA acc, k : LET xx == (k - 1) % 5  yy == (k - 1) \div 5 IN
                    Append(acc, t[5 * xx + ((xx + 3 * yy) % 5) + 1]), <<>>, Ix25)
      e == FoldLeft(LAMBDA acc, k : LET y5 == 5 * ((k - 1) \div 5)  x == (k - 1) % 5 IN
                    Append(acc, X4(b[k], A4(N4(b[y5 + ((x + 1) % 5) + 1]), b[y5 + ((x + 2) % 5) + 1]))), <<>>, Ix25)
  IN <<X4(e[1], KRC[i])>> \o Tail(e)
LOCAL KF(a) == FoldLeft(KRound, a, Upto(24))
LOCAL KAbsorb(m, r, st, k) ==
  KF(FoldLeft(LAMBDA acc, i : Append(acc, IF 8 * i <= r THEN X4(st[i], Le4(m, r * (k - 1) + 8 * i - 7)) ELSE st[i]), <<>>, Ix25))
\* rate r in bytes, output n bytes (n <= r)
Keccak(msg, r, n) ==
  LET z == r - (Len(msg) % r)
      m == msg \o (IF z = 1 THEN <<129>> ELSE <<1>> \o Zeros(z - 2) \o <<128>>)
      a == FoldLeft(LAMBDA st, k : KAbsorb(m, r, st, k), [k \in 1..25 |-> <<0, 0, 0, 0>>], Upto(Len(m) \div r))
  IN SubSeq(FoldLeft(LAMBDA acc, k : acc \o LeBytes4(a[k]), <<>>, Upto((n + 7) \div 8)), 1, n)

(* ---- CRC-64, polynomial x^64 + x^4 + x^3 + x + 1, reflected, started from 0 ---- *)
LOCAL CrcBit(c, i) == IF c[4] % 2 = 1 THEN X4(Sr4(c, 1), <<55296, 0, 0, 0>>) ELSE Sr4(c, 1)
LOCAL CrcByte(c, b) == FoldLeft(CrcBit, <<c[1], c[2], c[3], c[4] ^^ b>>, <<1, 2, 3, 4, 5, 6, 7, 8>>)
CRC64(msg) == BeBytes4(FoldLeft(CrcByte, <<0, 0, 0, 0>>, msg))

(* ---- by name ---- *)
Algorithms == {"md5", "sha1", "sha224", "sha256", "sha2", "sha384", "sha512", "sha3", "sha3224", "sha3256", "sha3384", "sha3512", "crc64"}
Digest(alg, msg) ==
  CASE alg = "md5" -> MD5(msg)
    [] alg = "sha1" -> SHA1(msg)
    [] alg = "sha224" -> SHA224(msg)
    [] alg = "sha256" -> SHA256(msg)
    [] alg = "sha2" -> SHA256(msg)
    [] alg = "sha384" -> SHA384(msg)
    [] alg = "sha512" -> SHA512(msg)
    [] alg = "sha3" -> Keccak(msg, 128, 36)
    [] alg = "sha3224" -> Keccak(msg, 144, 28)
    [] alg = "sha3256" -> Keccak(msg, 136, 32)
    [] alg = "sha3384" -> Keccak(msg, 104, 48)
    [] alg = "sha3512" -> Keccak(msg, 72, 64)
    [] alg = "crc64" -> CRC64(msg)
\* the length of a block as the toolkit reports it
BlockSize(alg) == IF alg \in {"sha384", "sha512"} THEN 128 ELSE IF alg = "crc64" THEN 32 ELSE 64
HMAC(alg, key, msg) ==
  LET bs == BlockSize(alg)
      k0 == IF Len(key) > bs THEN Digest(alg, key) ELSE key
      k == k0 \o Zeros(bs - Len(k0))
      ik == FoldLeft(LAMBDA acc, b : Append(acc, b ^^ 54), <<>>, k)
      ok == FoldLeft(LAMBDA acc, b : Append(acc, b ^^ 92), <<>>, k)
  IN Digest(alg, ok \o Digest(alg, ik \o msg))
=============================================================================
