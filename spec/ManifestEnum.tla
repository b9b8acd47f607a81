---------------------------- MODULE ManifestEnum ----------------------------
EXTENDS Manifest, Json
CONSTANTS Kind, K
VARIABLE case
Hashes == {"CRC64", "MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512"}
Set(f, b) == [op |-> "set", a |-> <<f, b>>]
Put(f, k, x, n) == [op |-> "put", a |-> <<f, k, x, n>>]
Gone(f) == [op |-> "gone", a |-> <<f>>]
Name(f, b) == [op |-> "name", a |-> <<f, b>>]
Digest(a) == [op |-> "digest", a |-> a]
Verify(a) == [op |-> "verify", a |-> a]
\* files 0 to 3; manifests 8 and 9; report 12
Txt(n) == [i \in 1..n |-> (i * 37 + n) % 256]
Flip(b, k) == [b EXCEPT ![k] = 255 - @]
Cases(dummy) ==
  \* every hash, at sizes around its block; then one bit differs
  CASE Kind = "hash" -> {<<Set(0, Txt(n)), Digest(<<8, h, 0>>), Verify(<<12, 8>>), Set(0, IF n = 0 THEN <<0>> ELSE Flip(Txt(n), 1 + (n \div 2))), Verify(<<12, 8>>), Set(0, Txt(n)), Verify(<<12, 8>>)>>
                         : h \in Hashes, n \in {0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 136, 143, 144, 200}}
    \* one of several files changes, grows, shrinks or goes away
    [] Kind = "one" -> {<<Set(0, Txt(3)), Set(1, Txt(40)), Set(2, <<>>), Digest(<<8, h, 0, "", 1, g, 2>>), Digest(<<9, g, 2, h, 0>>), c, Verify(<<12, 8>>), Verify(<<12, 9>>), Verify(<<12, 8, 9>>), Verify(<<12, 9, 8>>)>>
                        : h \in {"", "MD5", "SHA3-512"}, g \in {"", "SHA1", "CRC64"},
                          c \in {Set(0, <<>>), Set(0, Txt(4)), Set(0, Flip(Txt(3), 3)), Set(1, SubSeq(Txt(40), 1, 39)), Set(1, Txt(40) \o <<0>>), Set(2, <<0>>), Set(2, <<>>), Set(2, Txt(9)), Gone(0), Gone(1), Gone(2)}}
    \* more than one change, and changes taken back
    [] Kind = "some" -> {<<Set(0, Txt(3)), Set(1, Txt(5)), Set(2, Txt(7)), Set(3, Txt(9)), Digest(<<8, "", 0, "", 1, "", 2, "MD5", 3>>), c, d, Verify(<<12, 8>>), Digest(<<9, "", 3, "SHA512", 2, "", 1, "", 0>>), Verify(<<12, 8, 9>>),
                           Set(0, Txt(3)), Verify(<<12, 8>>), Verify(<<12, 9>>), Set(1, Txt(5)), Set(2, Txt(7)), Set(3, Txt(9)), Verify(<<12, 8>>), Verify(<<12, 9>>)>>
                         : c \in {Set(i, Txt(11)) : i \in 0..3} \cup {Gone(0), Gone(3)}, d \in {Set(i, Txt(13)) : i \in 0..3} \cup {Set(2, Txt(7)), Set(1, Txt(7))}}
    \* large files, changed at one place or in length
    [] Kind = "large" -> {<<Put(0, k, 1, n), Put(1, k, 2, n), Digest(<<8, h, 0, "", 1>>), Verify(<<12, 8>>), c, Verify(<<12, 8>>), Put(0, k, 1, n), Put(1, k, 2, n), Verify(<<12, 8>>)>>
                          : k \in {1}, n \in {81919, 81920, 81921, 163840, 262143, 262144, 262145, 600000}, h \in {"", "SHA1", "SHA3-256"},
                            c \in {Put(0, 1, 1, 81918), Put(0, 1, 3, 81920), Put(1, 1, 2, 262146), Put(1, 1, 2, 81000), Put(0, 1, 1, 599999)}}
    [] Kind = "names" -> {<<Name(0, nm), Name(1, om), Set(0, Txt(3)), Set(1, Txt(5)), Digest(<<8, h, 0, "", 1>>), Verify(<<12, 8>>), c, Verify(<<12, 8>>)>>
                          : nm \in {<<97, 38, 98>>, <<97, 60, 98>>, <<97, 34, 98>>, <<97, 39, 98>>, <<97, 32, 98>>, <<195, 169>>, <<97, 62, 98>>, <<97, 93, 93, 62>>, <<97, 38, 97, 109, 112, 59>>,
                                    <<97, 32, 32, 98>>, <<97, 61, 98>>, <<97, 37, 115>>, <<38, 35, 54, 53, 59>>, <<97, 32>>, <<97, 39>>, <<97, 34>>},
                            om \in {<<122, 32, 122>>, <<122, 38>>, <<122, 122>>}, h \in {"", "MD5"}, c \in {Set(0, Txt(4)), Set(1, Txt(6)), Set(0, Txt(3)), Gone(0)}}
EInit == case \in Cases(0)
ENext == UNCHANGED case
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
