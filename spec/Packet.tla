------------------------------- MODULE Packet -------------------------------
(* Enciphered files.  A file is enciphered under a passphrase, with the key in  *)
(* a key ring, into a header that names the settings and a body of chunks: for  *)
(* each piece of the plaintext an authentication code, a byte that names the    *)
(* compression and the enciphered piece, padded to whole blocks unless in CFB   *)
(* mode.  The file may then be damaged, and is deciphered.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Or(v, d) == IF v = "" THEN d ELSE v
OrN(v, d) == IF v = -1 THEN d ELSE v
Cipher(a) == Or(a[6], "AES")
Mode(a) == Or(a[7], "CTR")
Hmac(a) == Or(a[8], "SHA256")
Entropy(a) == Or(a[9], "BZip")
Level(a) == OrN(a[10], 6)
KeyHash(a) == Or(a[11], "SHA256")
KeyLength(a) == OrN(a[12], 512)
Chunk(a) == OrN(a[13], 262144)
Block(a) == IF Cipher(a) = "Chacha" THEN 64 ELSE 16
DigestSize(h) ==
  CASE h = "None" -> 0 [] h = "CRC64" -> 8 [] h = "MD5" -> 16 [] h = "SHA1" -> 20
    [] h \in {"SHA224", "SHA3-224"} -> 28 [] h \in {"SHA256", "SHA3-256"} -> 32
    [] h \in {"SHA384", "SHA3-384"} -> 48 [] h \in {"SHA512", "SHA3-512"} -> 64
Front(a) == DigestSize(Hmac(a)) + (IF Entropy(a) = "None" THEN 0 ELSE 1)
Up(n, b) == ((n + b - 1) \div b) * b
Body(mode, b, front, c, n) ==
  LET full == n \div c
      last == n % c
      P(k) == IF mode = "CFB" THEN k ELSE Up(k, b)
      final == IF last = 0 THEN c ELSE last
  IN full * (front + P(c)) + (IF last = 0 THEN 0 ELSE front + P(last))
     + (IF mode # "CFB" /\ n > 0 /\ final % b = 0 THEN b ELSE 0)
(* What follows from a length alone: reading front to back, with the length of  *)
(* what is left, the plaintext's pieces (a last padded piece is 0 here, as its  *)
(* length is in the padding).                                                   *)
RECURSIVE Layout(_, _, _, _, _)
Layout(mode, b, front, c, left) ==
  LET piece == front + (IF mode = "CFB" THEN c ELSE Up(c, b))
      each == mode = "CFB" \/ c % b # 0
  IN IF left = 0 THEN <<>>
     ELSE IF ~each /\ front > 0 /\ left = piece + b THEN <<c>>
     ELSE IF left < piece \/ (left = piece /\ ~each) THEN <<IF mode = "CFB" THEN left - front ELSE 0>>
     ELSE <<IF mode = "CFB" THEN c ELSE IF each THEN 0 ELSE c>> \o Layout(mode, b, front, c, left - piece)
Pieces(mode, b, front, c, n) ==
  LET each == mode = "CFB" \/ c % b # 0
      full == IF mode # "CFB" /\ each THEN 0 ELSE c
      last == n % c
      tail == IF last > 0 THEN <<IF mode = "CFB" THEN last ELSE 0>>
              ELSE IF ~each /\ front = 0 /\ n > 0 THEN <<0>> ELSE <<>>
  IN [i \in 1..(n \div c) |-> full] \o tail
Size(a, n) == Body(Mode(a), Block(a), Front(a), Chunk(a), n)
\* settings with which enciphering must work
Sound(a) == Cipher(a) \in {"AES", "Chacha", "Serpent", "Twofish"} /\ Chunk(a) > 0 /\ (Entropy(a) = "BZip" => Level(a) > 0)
None == [k |-> "none", of |-> -1, n |-> 0, pass |-> -1, ring |-> -1, prop |-> -1, hurt |-> FALSE, code |-> FALSE, exit |-> 0, at |-> <<>>]
PacketInit(cfg) == [f |-> [i \in 0..15 |-> None], packed |-> {}]
PacketStep(s, e) ==
  LET a == e.a  r == e.r
      Res(ok, t, want) == [ok |-> ok, s |-> t, want |-> want]
      F(i) == s.f[i]
      Put(i, x) == [s EXCEPT !.f[i] = x]
      Damage(i) == IF r = 1 THEN Put(i, [F(i) EXCEPT !.hurt = TRUE]) ELSE s
  IN
  CASE e.op = "name" -> Res(r = 0, IF Len(a[2]) > 3 THEN [s EXCEPT !.packed = @ \cup {a[1]}] ELSE s, 0)
    [] e.op = "put" -> Res(r = 0, Put(a[1], [None EXCEPT !.k = "plain", !.n = a[4], !.of = a[1]]), 0)
    [] e.op = "set" -> Res(r = 0, Put(a[1], [None EXCEPT !.k = "phrase", !.of = a[1], !.n = Len(a[2])]), 0)
    [] e.op = "enc" ->
         LET n == F(a[1]).n
             body == Size(a, n)
             names == <<Cipher(a), Mode(a), Hmac(a), Entropy(a), ToString(Level(a)), KeyHash(a), ToString(KeyLength(a)), ToString(Chunk(a))>>
             done == [None EXCEPT !.k = "packet", !.of = a[1], !.n = n, !.pass = a[3], !.ring = a[4], !.prop = a[5], !.code = Hmac(a) # "None", !.at = F(a[1]).at]
         IN IF r[2] # 0 THEN Res(~Sound(a), Put(a[2], None), "0")
            ELSE Res(~Sound(a) \/ a[2] \in s.packed \/ (r[3] = r[4] + body /\ (a[5] = -1 => r[4] > 0) /\ SubSeq(r, 5, Len(r)) = names),
                     Put(a[2], done), <<body, names>>)
    [] e.op = "dec" ->
         LET x == F(a[1])
             out == [None EXCEPT !.k = "out", !.of = x.of, !.n = x.n, !.exit = r, !.code = x.code, !.at = IF r = 0 THEN x.at ELSE <<>>]
             right == x.k = "packet" /\ ~x.hurt /\ x.pass = a[3] /\ x.ring = a[4] /\ x.prop = a[5]
         IN Res(r < 128 /\ (right => r = 0) /\ (x.k = "packet" /\ (x.pass # a[3] \/ x.ring # a[4]) => r # 0), Put(a[2], out), IF right THEN 0 ELSE 1)
    \* an output: the original after success, a beginning of it after failure
    [] e.op = "cmp" ->
         LET x == F(a[1])
         IN Res(x.of # a[2] \/ (~x.code /\ x.exit # 0)
                \/ (IF x.exit = 0 THEN r = <<x.n, x.n, x.n>> ELSE r[1] <= x.n /\ r[3] = (IF r[1] = -1 THEN 0 ELSE r[1])), s, <<x.exit, x.n>>)
    \* the local time zone; when a file was last changed, as instant <<days, seconds>>
    [] e.op = "zone" -> Res(r = 0, s, 0)
    [] e.op = "touch" -> Res(r = 0, Put(a[1], [F(a[1]) EXCEPT !.at = <<a[2], a[3]>>]), 0)
    [] e.op = "when" -> Res(F(a[1]).at = <<>> \/ r = F(a[1]).at, s, F(a[1]).at)
    [] OTHER -> Res(r \in {0, 1}, Damage(a[1]), 1)     \* flip, cut, glue, swap, drop, dup
=============================================================================
