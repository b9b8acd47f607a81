----------------------------- MODULE PacketEnum -----------------------------
EXTENDS Packet, Json
CONSTANTS Kind, K
VARIABLE case
Put(f, kind, n) == [op |-> "put", a |-> <<f, kind, n % 7, n>>]
Set(f, b) == [op |-> "set", a |-> <<f, b>>]
Name(f, b) == [op |-> "name", a |-> <<f, b>>]
Enc(i, o, p, g, q, c, m, h, x, l, k, kl, z) == [op |-> "enc", a |-> <<i, o, p, g, q, c, m, h, x, l, k, kl, z>>]
Dec(i, o, p, g, q) == [op |-> "dec", a |-> <<i, o, p, g, q>>]
Cmp(f, g) == [op |-> "cmp", a |-> <<f, g>>]
\* files: 0 plaintext, 1 packet, 2 output; 8, 9 passphrases; 10, 11 key rings; 12 properties
Phrase == <<115, 101, 99, 114, 101, 116>>
Start == <<Set(8, Phrase), Set(9, <<115, 101, 99, 114, 101, 84>>)>>
Round(kind, n, c, m, h, x, l, k, kl, z) == Start \o <<Put(0, kind, n), Enc(0, 1, 8, 10, -1, c, m, h, x, l, k, kl, z), Dec(1, 2, 8, 10, -1), Cmp(2, 0)>>
Ciphers == {"AES", "Chacha", "Serpent", "Twofish"}
Modes == {"CBC", "CFB", "CTR", "ECB", "OFB"}
Hashes == {"CRC64", "MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512"}
Entropies == {"None", "BZip", "LZMA", "Zip"}
Chunks == {1, 15, 16, 17, 31, 32, 33, 48, 50, 64, 65, 100, 128, 192}
\* sizes at and around multiples of the chunk and of the block
Size3(i, z, d) == IF i * z + d < 0 THEN 0 ELSE i * z + d
Flip(f, b, o, m) == [op |-> "flip", a |-> <<f, b, o, m>>]
Cut(f, b, o) == [op |-> "cut", a |-> <<f, b, o>>]
Glue(f, x) == [op |-> "glue", a |-> <<f, x>>]
Swap(f, b, o, p, l) == [op |-> "swap", a |-> <<f, b, o, p, l>>]
Drop(f, b, o, l) == [op |-> "drop", a |-> <<f, b, o, l>>]
Dup(f, b, o, l) == [op |-> "dup", a |-> <<f, b, o, l>>]
Hurt(kind, n, c, m, h, x, z, d) == Start \o <<Put(0, kind, n), Enc(0, 1, 8, 10, -1, c, m, h, x, -1, "", -1, z)>> \o d \o <<Dec(1, 2, 8, 10, -1), Cmp(2, 0)>>
Zone(b) == [op |-> "zone", a |-> <<b>>]
Touch(f, d, t) == [op |-> "touch", a |-> <<f, d, t>>]
When(f) == [op |-> "when", a |-> <<f>>]
\* UTC0 ABC5 ABC-5:30 ABC9:30 ABC-1DEF-2,M3.5.0/2,M10.5.0/3
Zones == {<<85, 84, 67, 48>>, <<65, 66, 67, 53>>, <<65, 66, 67, 45, 53, 58, 51, 48>>, <<65, 66, 67, 57, 58, 51, 48>>,
          <<65, 66, 67, 45, 49, 68, 69, 70, 45, 50, 44, 77, 51, 46, 53, 46, 48, 47, 50, 44, 77, 49, 48, 46, 53, 46, 48, 47, 51>>}
Cases(dummy) ==
  CASE Kind = "law" -> {<<>>}
    [] Kind = "sizes" -> {Round(i % 2, Size3(i, z, j * (IF c = "Chacha" THEN 64 ELSE 16) + d), c, m, h, x, -1, "", -1, z) : i \in 0..3, j \in {-1, 0, 1}, d \in {-1, 0, 1}, h \in {"None", "CRC64", "MD5", ""}, x \in {"None", ""},
                                 z \in Chunks, c \in {"AES", "Chacha"}, m \in {"CTR", "CBC", "CFB"}}
    [] Kind = "options" -> {Round(kind, n, c, m, h, x, -1, k, -1, z) : kind \in {1, 2}, n \in {0, 1, 100, 1000}, c \in Ciphers, m \in Modes, h \in Hashes \cup {"None"}, x \in Entropies,
                                k \in {"", "MD5", "SHA3-512"}, z \in {-1, 100}}
    [] Kind = "keys" -> {Round(2, 300, c, "", "", x, l, k, kl, -1) : c \in Ciphers, x \in {"BZip", "LZMA", "Zip"}, l \in 1..9, k \in Hashes, kl \in {256, 512, 1024, 2048, -1}}
    [] Kind = "large" -> {Round(kind, Size3(i, 262144, d), "", m, h, x, -1, "", -1, -1) : kind \in {1, 2}, i \in 0..2, d \in {-16, -1, 0, 1, 16}, m \in {"", "CFB"}, h \in {"", "None"}, x \in {"", "None"}} 
    [] Kind = "names" -> {Start \o <<Name(0, nm), Put(0, 2, 50), Name(1, om), Enc(0, 1, 8, 10, q, "", "", "", x, -1, "", -1, z), Dec(1, 2, 8, 10, q), Cmp(2, 0)>>
                          : nm \in {<<97, 38, 98>>, <<97, 60, 98>>, <<97, 34, 98>>, <<97, 39, 98>>, <<97, 32, 98>>, <<195, 169>>, <<97, 62, 98>>, <<97, 93, 93, 62>>, <<112>>},
                            om \in {<<111>>, <<111, 46, 103, 122>>, <<111, 46, 98, 122, 50>>}, q \in {-1, 12}, x \in {"", "None"}, z \in {16, 50, -1}}
    \* every degree of how well a chunk compresses, from nothing but one byte to nothing but noise
    [] Kind = "tight" -> {Round(z, z * (z + 1), "", m, h, x, l, "", -1, z) : z \in {64, 100, 200}, m \in {"", "CFB"}, h \in {"", "None"}, x \in {"Zip", "BZip", "LZMA"}, l \in {-1, 1}}
    [] Kind = "odd" -> {Round(kind, n, c, m, h, x, l, "", kl, z) : kind \in {2}, n \in {0, 40}, c \in {"", "None"}, m \in {""}, h \in {"", "None"}, x \in {""}, l \in {-1, 0}, kl \in {-1, 8}, z \in {0, 1, 1000000}}
    \* changed long ago, enciphered in one time zone and deciphered in another
    [] Kind = "times" -> {Start \o <<Zone(z), Put(0, 2, 50), Touch(0, d, t), Enc(0, 1, 8, 10, q, "", "", "", "", -1, "", -1, -1), Zone(y), Dec(1, 2, 8, 10, q), Cmp(2, 0), When(2)>>
                          : z \in Zones, y \in Zones, d \in {0, 1, 58, 59, 789, 10956, 11016, 19782, 20727, 24855, 30000}, t \in {0, 1, 43200, 86399}, q \in {-1, 12}}
    \* several files under one ring and two passphrases, deciphered in another order
    [] Kind = "many" -> {Start \o <<Put(0, 1, n), Put(3, 2, m), Enc(0, 1, 8, 10, -1, c, "", "", "", -1, "", -1, -1), Enc(3, 4, p, g, -1, "", d, "", x, -1, "", -1, 64), Enc(0, 5, 9, 10, 12, "", "", h, "", -1, "", -1, 48)>>
                         \o (IF o = 1 THEN <<Dec(4, 6, p, g, -1), Cmp(6, 3), Dec(5, 7, 9, 10, 12), Cmp(7, 0), Dec(1, 2, 8, 10, -1), Cmp(2, 0), Dec(4, 6, p, g, -1), Cmp(6, 3)>>
                             ELSE <<Dec(1, 2, 9, 10, -1), Dec(5, 7, 8, 10, 12), Dec(1, 2, 8, 11, -1), Dec(4, 6, p, g, -1), Cmp(6, 3), Dec(1, 2, 8, 10, -1), Cmp(2, 0), Dec(5, 7, 9, 10, 12), Cmp(7, 0)>>)
                         : n \in {0, 200}, m \in {1, 64, 130}, c \in Ciphers, p \in {8, 9}, g \in {10, 11}, d \in Modes, x \in {"", "Zip"}, h \in {"", "SHA3-256"}, o \in 1..2}
    [] Kind = "wrong" -> {Start \o <<Put(0, kind, n), Enc(0, 1, 8, 10, -1, c, m, h, "", -1, "", -1, 64), Dec(1, 2, p, g, -1), Cmp(2, 0), Dec(1, 2, 8, 10, -1), Cmp(2, 0)>>
                          : kind \in {1, 2}, n \in {0, 5, 100}, c \in Ciphers, m \in Modes, h \in {"", "None"}, p \in {8, 9}, g \in {10, 11}}
    [] Kind = "head" -> {Hurt(2, n, "", "", "", "", 64, <<Flip(1, 0, o, w)>>) : n \in {0, 100}, o \in 0..1499, w \in {1, 2, 16, 32, 128}}
    [] Kind = "body" -> {Hurt(1 + (o % 2), n, "", m, h, x, 64, <<Flip(1, 1, o, w)>>) : n \in {1, 64, 128, 150}, m \in Modes, h \in {"", "MD5"}, x \in {"", "None"}, o \in 0..299, w \in {IF K = 0 THEN 1 ELSE 16, 128}}
    [] Kind = "cuthead" -> {Hurt(2, n, "", "", "", "", 64, <<Cut(1, 0, o)>>) : n \in {0, 100}, o \in 0..1499}
    [] Kind = "cutbody" -> {Hurt(1 + (o % 2), n, "", m, h, x, z, <<Cut(1, 1, o)>>) : n \in {1, 64, 128, 150}, m \in Modes, h \in {"", "MD5"}, x \in {"", "None"}, z \in {64, 50}, o \in 0..299}
    [] Kind = "glue" -> {Hurt(kind, n, "", m, h, x, z, <<Glue(1, g)>>) : kind \in {1, 2}, n \in {0, 1, 64, 128, 150}, m \in Modes, h \in {"", "MD5"}, x \in {"", "None"}, z \in {64, 50},
                           g \in {<<0>>, <<1, 2, 3>>, [i \in 1..16 |-> 0], [i \in 1..33 |-> i], [i \in 1..97 |-> 255]}}
    \* whole chunks moved, removed or doubled: with chunks of z bytes, f bytes before each
    [] Kind = "chunks" -> {Hurt(kind, n, "", m, h, x, 64, <<d>>) : kind \in {1}, n \in {128, 192, 200}, m \in {"CTR", "CFB", "CBC"}, h \in {"", "MD5"}, x \in {"", "None"},
                            d \in UNION {{Swap(1, 1, 0, f + 64, f + 64), Drop(1, 1, 0, f + 64), Dup(1, 1, 0, f + 64), Drop(1, 1, f + 64, f + 64), Cut(1, 1, f + 64), Cut(1, 1, f + 64 + 16)} : f \in {33, 17, 32, 16}}}
(* The length of the body tells where the pieces are, whatever the settings.   *)
Law == \A b \in {2, 4}, front \in {0, 1, 2, 3, 5, 9}, c \in 1..9, n \in 0..40, mode \in {"CTR", "CFB"} :
         Layout(mode, b, front, c, Body(mode, b, front, c, n)) = Pieces(mode, b, front, c, n)
EInit == case \in Cases(0)
ENext == UNCHANGED case
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
