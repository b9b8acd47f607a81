-------------------------------- MODULE Words --------------------------------
(* 32- and 64-bit words as tuples of 16-bit limbs, most significant first.     *)
(* Tuples are written out because TLC evaluates them eagerly.                  *)
EXTENDS Integers, Sequences, Bitwise
B16 == 65536
X2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
A2(x, y) == <<x[1] & y[1], x[2] & y[2]>>
O2(x, y) == <<x[1] | y[1], x[2] | y[2]>>
N2(x) == <<65535 - x[1], 65535 - x[2]>>
Add2(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + (l \div B16)) % B16, l % B16>>
\* rotation to the right
LOCAL R2s(x, p, q) == <<(x[1] \div p) + (x[2] % p) * q, (x[2] \div p) + (x[1] % p) * q>>
Rr2(x, n) == IF n < 16 THEN R2s(x, 2^n, 2^(16 - n)) ELSE R2s(<<x[2], x[1]>>, 2^(n - 16), 2^(32 - n))
Rl2(x, n) == Rr2(x, (32 - n) % 32)
\* shift to the right, fewer than 16 places
Sr2(x, n) == <<x[1] \div 2^n, (x[2] \div 2^n) + (x[1] % 2^n) * 2^(16 - n)>>
Sl2(x, n) == <<((x[1] * 2^n) % B16) + (x[2] \div 2^(16 - n)), (x[2] * 2^n) % B16>>

X4(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
A4(x, y) == <<x[1] & y[1], x[2] & y[2], x[3] & y[3], x[4] & y[4]>>
N4(x) == <<65535 - x[1], 65535 - x[2], 65535 - x[3], 65535 - x[4]>>
Add4(x, y) ==
  LET d == x[4] + y[4]
      c == x[3] + y[3] + (d \div B16)
      b == x[2] + y[2] + (c \div B16)
      a == x[1] + y[1] + (b \div B16)
  IN <<a % B16, b % B16, c % B16, d % B16>>
LOCAL R4s(x, p, q) == <<(x[1] \div p) + (x[4] % p) * q, (x[2] \div p) + (x[1] % p) * q,
                        (x[3] \div p) + (x[2] % p) * q, (x[4] \div p) + (x[3] % p) * q>>
Rr4(x, n) ==
  LET m == n % 16
      p == 2^m
      q == 2^(16 - m)
  IN CASE n < 16 -> R4s(x, p, q)
       [] n >= 16 /\ n < 32 -> R4s(<<x[4], x[1], x[2], x[3]>>, p, q)
       [] n >= 32 /\ n < 48 -> R4s(<<x[3], x[4], x[1], x[2]>>, p, q)
       [] n >= 48 -> R4s(<<x[2], x[3], x[4], x[1]>>, p, q)
Rl4(x, n) == Rr4(x, (64 - n) % 64)
Sr4(x, n) == <<x[1] \div 2^n, (x[2] \div 2^n) + (x[1] % 2^n) * 2^(16 - n),
               (x[3] \div 2^n) + (x[2] % 2^n) * 2^(16 - n), (x[4] \div 2^n) + (x[3] % 2^n) * 2^(16 - n)>>
\* bytes q[k], q[k+1], ... as words
Be2(q, k) == <<q[k] * 256 + q[k + 1], q[k + 2] * 256 + q[k + 3]>>
Le2(q, k) == <<q[k + 3] * 256 + q[k + 2], q[k + 1] * 256 + q[k]>>
Be4(q, k) == <<q[k] * 256 + q[k + 1], q[k + 2] * 256 + q[k + 3], q[k + 4] * 256 + q[k + 5], q[k + 6] * 256 + q[k + 7]>>
Le4(q, k) == <<q[k + 7] * 256 + q[k + 6], q[k + 5] * 256 + q[k + 4], q[k + 3] * 256 + q[k + 2], q[k + 1] * 256 + q[k]>>
BeBytes2(x) == <<x[1] \div 256, x[1] % 256, x[2] \div 256, x[2] % 256>>
LeBytes2(x) == <<x[2] % 256, x[2] \div 256, x[1] % 256, x[1] \div 256>>
BeBytes4(x) == <<x[1] \div 256, x[1] % 256, x[2] \div 256, x[2] % 256, x[3] \div 256, x[3] % 256, x[4] \div 256, x[4] % 256>>
LeBytes4(x) == <<x[4] % 256, x[4] \div 256, x[3] % 256, x[3] \div 256, x[2] % 256, x[2] \div 256, x[1] % 256, x[1] \div 256>>
=============================================================================
