-------------------------------- MODULE Codec --------------------------------
(* Base64 (RFC 4648, with padding) and hexadecimal text of byte sequences.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Space == {9, 10, 11, 12, 13, 32}
Sym(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
SymSet == {Sym(v) : v \in 0..63}
LOCAL ValT == [b \in SymSet |-> CHOOSE v \in 0..63 : Sym(v) = b]
Val(b) == ValT[b]
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE 0

\* byte j of q, zero beyond the end
LOCAL At(q, j) == IF j <= Len(q) THEN q[j] ELSE 0
Encode(q) ==
  LET groups == (Len(q) + 2) \div 3
      sext(k) == LET g == (k - 1) \div 4  o == (k - 1) % 4
                     a == At(q, 3 * g + 1)  b == At(q, 3 * g + 2)  c == At(q, 3 * g + 3)
                 IN CASE o = 0 -> a \div 4
                      [] o = 1 -> (a % 4) * 16 + (b \div 16)
                      [] o = 2 -> (b % 16) * 4 + (c \div 64)
                      [] o = 3 -> c % 64
      used == Len(q) + groups      \* symbols that carry data
  IN [k \in 1..(4 * groups) |-> IF k <= used THEN Sym(sext(k)) ELSE 61]

\* <<>> when the text is not Base64, otherwise <<bytes>>
Decode(t) ==
  LET u == SelectSeq(t, LAMBDA b : b \notin Space)
      pads == {k \in 1..Len(u) : u[k] = 61}
      n == IF pads = {} THEN Len(u) ELSE (CHOOSE k \in pads : \A m \in pads : k <= m) - 1
      data == SubSeq(u, 1, n)
      bytes == (n * 6) \div 8
      v(k) == IF k <= n THEN Val(data[k]) ELSE 0
      byte(j) == LET g == (j - 1) \div 3  o == (j - 1) % 3
                     a == v(4 * g + 1)  b == v(4 * g + 2)  c == v(4 * g + 3)  d == v(4 * g + 4)
                 IN CASE o = 0 -> a * 4 + (b \div 16)
                      [] o = 1 -> (b % 16) * 16 + (c \div 4)
                      [] o = 2 -> (c % 4) * 64 + d
  IN IF \E k \in 1..n : data[k] \notin SymSet THEN <<>>
     ELSE IF Len(u) - n # (4 - (n % 4)) % 4 \/ n % 4 = 1 \/ Cardinality(pads) # Len(u) - n THEN <<>>
     ELSE IF (n % 4 = 2 /\ v(n) % 16 # 0) \/ (n % 4 = 3 /\ v(n) % 4 # 0) THEN <<>>
     ELSE <<[j \in 1..bytes |-> byte(j)]>>

ToHex(q) == [k \in 1..(2 * Len(q)) |-> LET b == q[(k + 1) \div 2] IN HexDigit(IF k % 2 = 1 THEN b \div 16 ELSE b % 16)]
FromHex(t) == [k \in 1..(Len(t) \div 2) |-> HexVal(t[2 * k - 1]) * 16 + HexVal(t[2 * k])]

CodecDo(o) ==
  CASE o.op = "enc" -> <<Encode(o.a[1]), <<o.a[1]>>>>      \* the text, and what it decodes to
    [] o.op = "dec" -> Decode(o.a[1])
    [] o.op = "hex" -> <<ToHex(o.a[1]), o.a[1]>>
    [] o.op = "unhex" -> FromHex(o.a[1])
CodecInit(cfg) == 0
\* an empty text holds no data: success with nothing or refusal are one
CodecStep(s, e) ==
  LET w == CodecDo(e) IN
  [ok |-> e.r = w \/ (e.op = "dec" /\ w = <<<<>>>> /\ e.r = <<>>), s |-> s, want |-> w]
(* laws *)
CodecLaw(o) ==
  CASE o.op = "enc" -> Decode(Encode(o.a[1])) = <<o.a[1]>>
    [] o.op = "dec" -> LET d == Decode(o.a[1]) IN
                       d # <<>> => Encode(d[1]) = SelectSeq(o.a[1], LAMBDA b : b \notin Space)
    [] o.op = "hex" -> FromHex(ToHex(o.a[1])) = o.a[1]
    [] OTHER -> TRUE
=============================================================================
