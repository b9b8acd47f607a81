------------------------------- MODULE Cipher -------------------------------
(* The block ciphers, from their publications: AES (FIPS 197), Serpent,         *)
(* Twofish, ChaCha (20 rounds, counter and nonce zero), and the modes of        *)
(* operation over them (SP 800-38A, CFB with 8-bit segments).                   *)
EXTENDS Words, CipherConst, TLC
LOCAL INSTANCE SequencesExt
LOCAL Upto(n) == [k \in 1..n |-> k]
LOCAL Ix4 == <<1, 2, 3, 4>>
LOCAL Ix16 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>
XorB(x, y) == FoldLeft(LAMBDA acc, k : Append(acc, x[k] ^^ y[k]), <<>>, Upto(Len(x)))

(* ---- AES; state byte 4c + r + 1 is row r, column c ---- *)
LOCAL S(b) == AesS[b + 1]
LOCAL M2(b) == Mul2[b + 1]
LOCAL M3(b) == Mul2[b + 1] ^^ b
LOCAL AesRcon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
LOCAL AesWord(nk, w, i) ==         \* words counted from 0; w holds words 0..i-1
  LET p == w[i]
      t == IF i % nk = 0 THEN <<S(p[2]) ^^ AesRcon[i \div nk], S(p[3]), S(p[4]), S(p[1])>>
           ELSE IF nk > 6 /\ i % nk = 4 THEN <<S(p[1]), S(p[2]), S(p[3]), S(p[4])>> ELSE p
      q == w[i - nk + 1]
  IN Append(w, <<q[1] ^^ t[1], q[2] ^^ t[2], q[3] ^^ t[3], q[4] ^^ t[4]>>)
AesKey(key) ==
  LET nk == Len(key) \div 4
      w0 == FoldLeft(LAMBDA acc, k : Append(acc, SubSeq(key, 4 * k - 3, 4 * k)), <<>>, Upto(nk))
      w == FoldLeft(LAMBDA acc, k : AesWord(nk, acc, k + nk - 1), w0, Upto(4 * (nk + 7) - nk))
  IN FoldLeft(LAMBDA acc, r : Append(acc, w[4 * r - 3] \o w[4 * r - 2] \o w[4 * r - 1] \o w[4 * r]), <<>>, Upto(nk + 7))
LOCAL AesShift == <<1, 6, 11, 16, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12>>
LOCAL AesSub(st) == FoldLeft(LAMBDA acc, k : Append(acc, S(st[AesShift[k]])), <<>>, Ix16)
LOCAL AesMix(t) ==
  FoldLeft(LAMBDA acc, c : LET a == t[4 * c - 3]  b == t[4 * c - 2]  d == t[4 * c - 1]  e == t[4 * c] IN
             acc \o <<(M2(a) ^^ M3(b)) ^^ (d ^^ e), (a ^^ M2(b)) ^^ (M3(d) ^^ e), (a ^^ b) ^^ (M2(d) ^^ M3(e)), (M3(a) ^^ b) ^^ (d ^^ M2(e))>>,
           <<>>, Ix4)
AesBlock(rk, p) ==
  LET n == Len(rk)
      st == FoldLeft(LAMBDA acc, r : XorB(AesMix(AesSub(acc)), rk[r + 1]), XorB(p, rk[1]), Upto(n - 2))
  IN XorB(AesSub(st), rk[n])

(* ---- Serpent ---- *)
LOCAL And4(n, x) == LET a == IF n % 2 = 1 THEN x[1] ELSE N2(x[1])
                        b == IF (n \div 2) % 2 = 1 THEN x[2] ELSE N2(x[2])
                        c == IF (n \div 4) % 2 = 1 THEN x[3] ELSE N2(x[3])
                        d == IF n \div 8 = 1 THEN x[4] ELSE N2(x[4])
                    IN A2(A2(a, b), A2(c, d))
LOCAL Minterms(x) == FoldLeft(LAMBDA acc, k : Append(acc, And4(k - 1, x)), <<>>, Ix16)
LOCAL Sum(m, on) == FoldLeft(LAMBDA acc, n : O2(acc, m[n + 1]), <<0, 0>>, on)
LOCAL SBox(i, x) == LET m == Minterms(x)  t == SerpentOn[(i % 8) + 1]
                    IN <<Sum(m, t[1]), Sum(m, t[2]), Sum(m, t[3]), Sum(m, t[4])>>
LOCAL Phi == <<40503, 31161>>
SerpentKey(key) ==
  LET pad == IF Len(key) = 32 THEN key ELSE key \o <<1>> \o [k \in 1..(31 - Len(key)) |-> 0]
      w0 == FoldLeft(LAMBDA acc, k : Append(acc, Le2(pad, 4 * k - 3)), <<>>, Upto(8))
      w == FoldLeft(LAMBDA acc, i : LET n == Len(acc) IN
             Append(acc, Rl2(X2(X2(X2(acc[n - 7], acc[n - 4]), X2(acc[n - 2], acc[n])), X2(Phi, <<0, i - 1>>)), 11)), w0, Upto(132))
  IN FoldLeft(LAMBDA acc, r : LET b == 8 + 4 * (r - 1) IN
       Append(acc, SBox((36 - r) % 8, <<w[b + 1], w[b + 2], w[b + 3], w[b + 4]>>)), <<>>, Upto(33))
LOCAL Mix(x, k) == <<X2(x[1], k[1]), X2(x[2], k[2]), X2(x[3], k[3]), X2(x[4], k[4])>>
LOCAL SLin(x) ==
  LET a == Rl2(x[1], 13)
      c == Rl2(x[3], 3)
      b == Rl2(X2(x[2], X2(a, c)), 1)
      d == Rl2(X2(x[4], X2(c, Sl2(a, 3))), 7)
      a2 == X2(a, X2(b, d))
      c2 == X2(c, X2(d, Sl2(b, 7)))
  IN <<Rl2(a2, 5), b, Rl2(c2, 22), d>>
SerpentBlock(ks, p) ==
  LET x0 == <<Le2(p, 1), Le2(p, 5), Le2(p, 9), Le2(p, 13)>>
      x == FoldLeft(LAMBDA acc, r : SLin(SBox(r - 1, Mix(acc, ks[r]))), x0, Upto(31))
      y == Mix(SBox(31, Mix(x, ks[32])), ks[33])
  IN LeBytes2(y[1]) \o LeBytes2(y[2]) \o LeBytes2(y[3]) \o LeBytes2(y[4])

(* ---- Twofish; the four bytes of a word least significant first ---- *)
LOCAL Q0(b) == TwoQ0[b + 1]
LOCAL Q1(b) == TwoQ1[b + 1]
LOCAL TwoX(y, l) == <<y[1] ^^ l[1], y[2] ^^ l[2], y[3] ^^ l[3], y[4] ^^ l[4]>>
LOCAL TwoH(x, l) ==
  LET k == Len(l)
      y4 == IF k < 4 THEN x ELSE TwoX(<<Q1(x[1]), Q0(x[2]), Q0(x[3]), Q1(x[4])>>, l[4])
      y3 == IF k < 3 THEN y4 ELSE TwoX(<<Q1(y4[1]), Q1(y4[2]), Q0(y4[3]), Q0(y4[4])>>, l[3])
      y2 == TwoX(<<Q0(y3[1]), Q1(y3[2]), Q0(y3[3]), Q1(y3[4])>>, l[2])
      y1 == TwoX(<<Q0(y2[1]), Q0(y2[2]), Q1(y2[3]), Q1(y2[4])>>, l[1])
      a == Q1(y1[1])  b == Q0(y1[2])  c == Q1(y1[3])  d == Q0(y1[4])
      A5 == Mul5B[a + 1]  AE == MulEF[a + 1]  B5 == Mul5B[b + 1]  BE == MulEF[b + 1]
      C5 == Mul5B[c + 1]  CE == MulEF[c + 1]  D5 == Mul5B[d + 1]  DE == MulEF[d + 1]
      z1 == (a ^^ BE) ^^ (C5 ^^ D5)
      z2 == (A5 ^^ BE) ^^ (CE ^^ d)
      z3 == (AE ^^ B5) ^^ (c ^^ DE)
      z4 == (AE ^^ b) ^^ (CE ^^ D5)
  IN <<z4 * 256 + z3, z2 * 256 + z1>>
LOCAL TwoS(key, i) ==          \* the Reed-Solomon word of key bytes 8i+1..8i+8
  FoldLeft(LAMBDA acc, r : Append(acc, FoldLeft(LAMBDA v, j : v ^^ RsMul[RsRow[r][j]][key[8 * i + j] + 1], 0, Upto(8))), <<>>, Ix4)
TwofishKey(key) ==
  LET n == Len(key) \div 8
      part(o) == FoldLeft(LAMBDA acc, k : Append(acc, SubSeq(key, 8 * (k - 1) + o, 8 * (k - 1) + o + 3)), <<>>, Upto(n))
      me == part(1)
      mo == part(5)
      sk == FoldLeft(LAMBDA acc, k : Append(acc, TwoS(key, n - k)), <<>>, Upto(n))
      ks == FoldLeft(LAMBDA acc, i : LET e == 2 * (i - 1)  o == e + 1
                                         a == TwoH(<<e, e, e, e>>, me)
                                         b == Rl2(TwoH(<<o, o, o, o>>, mo), 8)
                                         ab == Add2(a, b)
                                     IN acc \o <<ab, Rl2(Add2(ab, b), 9)>>, <<>>, Upto(20))
  IN [k |-> ks, s |-> sk]
LOCAL TwoRound(ks, x, r) ==
  LET t0 == TwoH(LeBytes2(x[1]), ks.s)
      t1 == TwoH(LeBytes2(Rl2(x[2], 8)), ks.s)
      s1 == Add2(t0, t1)
      f0 == Add2(s1, ks.k[2 * r + 7])
      f1 == Add2(Add2(s1, t1), ks.k[2 * r + 8])
  IN <<Rr2(X2(x[3], f0), 1), X2(Rl2(x[4], 1), f1), x[1], x[2]>>
TwofishBlock(ks, p) ==
  LET x0 == Mix(<<Le2(p, 1), Le2(p, 5), Le2(p, 9), Le2(p, 13)>>, ks.k)
      x == FoldLeft(LAMBDA acc, r : TwoRound(ks, acc, r), x0, Ix16)
      y == Mix(<<x[3], x[4], x[1], x[2]>>, <<ks.k[5], ks.k[6], ks.k[7], ks.k[8]>>)
  IN LeBytes2(y[1]) \o LeBytes2(y[2]) \o LeBytes2(y[3]) \o LeBytes2(y[4])

(* ---- ChaCha ---- *)
LOCAL Sigma == <<101, 120, 112, 97, 110, 100, 32, 51, 50, 45, 98, 121, 116, 101, 32, 107>>
LOCAL Tau == <<101, 120, 112, 97, 110, 100, 32, 49, 54, 45, 98, 121, 116, 101, 32, 107>>
LOCAL Quarter(q) ==
  LET a1 == Add2(q[1], q[2])  d1 == Rl2(X2(q[4], a1), 16)
      c1 == Add2(q[3], d1)    b1 == Rl2(X2(q[2], c1), 12)
      a2 == Add2(a1, b1)      d2 == Rl2(X2(d1, a2), 8)
      c2 == Add2(c1, d2)      b2 == Rl2(X2(b1, c2), 7)
  IN <<a2, b2, c2, d2>>
LOCAL Double(x, i) ==
  LET p == Quarter(<<x[1], x[5], x[9], x[13]>>)   q == Quarter(<<x[2], x[6], x[10], x[14]>>)
      r == Quarter(<<x[3], x[7], x[11], x[15]>>)  s == Quarter(<<x[4], x[8], x[12], x[16]>>)
      t == Quarter(<<p[1], q[2], r[3], s[4]>>)    u == Quarter(<<q[1], r[2], s[3], p[4]>>)
      v == Quarter(<<r[1], s[2], p[3], q[4]>>)    w == Quarter(<<s[1], p[2], q[3], r[4]>>)
  IN <<t[1], u[1], v[1], w[1], w[2], t[2], u[2], v[2], v[3], w[3], t[3], u[3], u[4], v[4], w[4], t[4]>>
\* the key stream block for counter c and nonce n (8 bytes each)
ChachaKey(key, c, n) ==
  LET full == (IF Len(key) = 32 THEN Sigma \o key ELSE Tau \o key \o key) \o c \o n
      x0 == FoldLeft(LAMBDA acc, k : Append(acc, Le2(full, 4 * k - 3)), <<>>, Ix16)
      x == FoldLeft(Double, x0, Upto(10))
  IN FoldLeft(LAMBDA acc, k : acc \o LeBytes2(Add2(x[k], x0[k])), <<>>, Ix16)

(* ---- by name ---- *)
Ciphers == {"aes", "serpent", "twofish", "chacha"}
BlockLen(c) == IF c = "chacha" THEN 64 ELSE 16
KeyLens(c) == IF c = "chacha" THEN {16, 32} ELSE {16, 24, 32}
LOCAL Z8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Schedule(c, key) == CASE c = "aes" -> AesKey(key) [] c = "serpent" -> SerpentKey(key)
                      [] c = "twofish" -> TwofishKey(key) [] c = "chacha" -> ChachaKey(key, Z8, Z8)
Block(c, ks, p) == CASE c = "aes" -> AesBlock(ks, p) [] c = "serpent" -> SerpentBlock(ks, p)
                     [] c = "twofish" -> TwofishBlock(ks, p) [] c = "chacha" -> XorB(ks, p)

(* ---- modes over whole blocks (cfb: any length) ---- *)
Modes == {"cbc", "cfb", "ctr", "ecb", "ofb"}
LOCAL Blk(t, k, b) == SubSeq(t, (k - 1) * b + 1, k * b)
LOCAL Inc(n) ==                 \* big-endian increment of a byte string
  LET j == CHOOSE k \in 0..Len(n) : (k = 0 \/ n[k] # 255) /\ \A m \in (k + 1)..Len(n) : n[m] = 255
  IN [k \in 1..Len(n) |-> IF k < j THEN n[k] ELSE IF k = j THEN n[k] + 1 ELSE 0] \o <<>>
Encipher(c, mode, key, nonce, t) ==
  LET ks == Schedule(c, key)
      b == BlockLen(c)
      E(p) == Block(c, ks, p)
      nb == Len(t) \div b
  IN CASE mode = "ecb" -> FoldLeft(LAMBDA acc, k : acc \o E(Blk(t, k, b)), <<>>, Upto(nb))
       [] mode = "cbc" -> FoldLeft(LAMBDA acc, k : LET y == E(XorB(Blk(t, k, b), acc.v)) IN [o |-> acc.o \o y, v |-> y],
                                   [o |-> <<>>, v |-> nonce], Upto(nb)).o
       [] mode = "ofb" -> FoldLeft(LAMBDA acc, k : LET y == E(acc.v) IN [o |-> acc.o \o XorB(Blk(t, k, b), y), v |-> y],
                                   [o |-> <<>>, v |-> nonce], Upto(nb)).o
       [] mode = "ctr" -> FoldLeft(LAMBDA acc, k : [o |-> acc.o \o XorB(Blk(t, k, b), E(acc.v)), v |-> Inc(acc.v)],
                                   [o |-> <<>>, v |-> nonce], Upto(nb)).o
       [] mode = "cfb" -> FoldLeft(LAMBDA acc, k : LET y == t[k] ^^ E(acc.v)[1] IN [o |-> Append(acc.o, y), v |-> Append(Tail(acc.v), y)],
                                   [o |-> <<>>, v |-> nonce], Upto(Len(t))).o
=============================================================================
