---------------------------- MODULE CipherObjEnum ----------------------------
EXTENDS CipherObj, Enum
CONSTANTS Kind, N
Bit(n, k) == [j \in 1..n |-> IF (k - 1) \div 8 = j - 1 THEN 2^((k - 1) % 8) ELSE 0] \o <<>>   \* only bit k of n bytes set
Lens16 == {0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100}
Lens64 == {0, 1, 63, 64, 65, 127, 128, 129, 190}
Wrap(c, k) == [j \in 1..BlockLen(c) |-> IF j > BlockLen(c) - k THEN 255 ELSE RandomElement(0..254)] \o <<>>
CipherCases(x) ==
  CASE Kind = "keybit" -> UNION {UNION {{[op |-> "blk", a |-> <<c, Bit(n, k), Bit(BlockLen(c), 8 * BlockLen(c) + 1)>>] : k \in {j \in 0..(8 * n) : j % N = 0}}
                                        : n \in KeyLens(c)} : c \in Ciphers}
    [] Kind = "textbit" -> UNION {{[op |-> "blk", a |-> <<c, Rnd(n), Bit(BlockLen(c), k) \o Bit(BlockLen(c), k + 1)>>] : k \in {j \in 1..(8 * BlockLen(c)) : j % N = 0}}
                                    : c \in Ciphers, n \in {16, 32}}
    [] Kind = "random" -> UNION {{[op |-> "blk", a |-> <<c, Rnd(n), Rnd(2 * BlockLen(c))>>] : n \in KeyLens(c), k \in 1..N} : c \in Ciphers}
    [] Kind = "chacha" -> {[op |-> "chacha", a |-> <<Rnd(n), Bit(8, k), Bit(8, 65 - k), Rnd(64)>>] : n \in {16, 32}, k \in 1..64}
    [] Kind = "mode" -> UNION {{[op |-> "mode", a |-> <<c, m, Rnd(k), RNonce(c), Rnd(n)>>] : m \in Modes, k \in KeyLens(c),
                                 n \in IF N > 0 THEN 0..N ELSE IF c = "chacha" THEN Lens64 ELSE Lens16} : c \in Ciphers}
    \* counters whose last k bytes are about to wrap
    [] Kind = "carry" -> UNION {{[op |-> "mode", a |-> <<c, "ctr", Rnd(16), Wrap(c, k), Rnd(2 * BlockLen(c) + 3)>>] : k \in 1..(BlockLen(c) - 1)} : c \in Ciphers}
Law == Len(enumCase.a) > 0
=============================================================================
