------------------------------ MODULE Manifest ------------------------------
(* Digest manifests.  A manifest lists files, each with the hash of what it     *)
(* held; verifying manifests reports exactly the files that hold something      *)
(* else now, in the order of the manifests, and names those that are gone.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL H == INSTANCE Hash
Tag(h) == CASE h = "SHA1" -> "sha1" [] h = "MD5" -> "md5" [] h = "CRC64" -> "crc64" [] h = "SHA224" -> "sha224" [] h = "SHA256" -> "sha256"
            [] h = "SHA384" -> "sha384" [] h = "SHA512" -> "sha512" [] h = "SHA3-224" -> "sha3224" [] h = "SHA3-256" -> "sha3256"
            [] h = "SHA3-384" -> "sha3384" [] h = "SHA3-512" -> "sha3512"
Lower(h) == CASE h = "SHA1" -> "sha1" [] h = "MD5" -> "md5" [] h = "CRC64" -> "crc64" [] h = "SHA224" -> "sha224" [] h = "SHA256" -> "sha256"
            [] h = "SHA384" -> "sha384" [] h = "SHA512" -> "sha512" [] h = "SHA3-224" -> "sha3-224" [] h = "SHA3-256" -> "sha3-256"
            [] h = "SHA3-384" -> "sha3-384" [] h = "SHA3-512" -> "sha3-512"
\* contents: <<"gone">>, <<"bytes", ...>> or <<"many", kind, seed, length>>
Long(c) == IF c[1] = "many" THEN c[4] ELSE Len(c[2])
ManifestInit(cfg) == [f |-> [i \in 0..15 |-> <<"gone">>], m |-> [i \in 0..15 |-> <<>>]]
\* the entries of a manifest: for each file in turn <<file, hash, content>>
RECURSIVE Entries(_, _, _, _)
Entries(s, a, k, hash) ==
  IF k + 1 > Len(a) THEN <<>>
  ELSE LET h == IF a[k] = "" THEN hash ELSE a[k]
           c == s.f[a[k + 1]]
       IN (IF c = <<"gone">> THEN <<>> ELSE <<<<a[k + 1], h, c>>>>) \o Entries(s, a, k + 2, h)
Missing(s, a) == {k \in 2..Len(a) : k % 2 = 1 /\ s.f[a[k]] = <<"gone">>} # {}
Same(e, x) == x[1] = Long(e[3]) /\ x[2] = Lower(e[2]) /\ (e[3][1] = "many" \/ x[3] = H!Digest(Tag(e[2]), e[3][2]))
ManifestStep(s, e) ==
  LET a == e.a  r == e.r
      Res(ok, t, want) == [ok |-> ok, s |-> t, want |-> want]
  IN
  CASE e.op = "name" -> Res(r = 0, s, 0)
    [] e.op = "put" -> Res(r = 0, [s EXCEPT !.f[a[1]] = <<"many", a[2], a[3], a[4]>>], 0)
    [] e.op = "set" -> Res(r = 0, [s EXCEPT !.f[a[1]] = <<"bytes", a[2]>>], 0)
    [] e.op = "gone" -> Res(r = 0, [s EXCEPT !.f[a[1]] = <<"gone">>], 0)
    [] e.op = "digest" ->
         LET want == Entries(s, a, 2, "SHA256")
         IN Res((~Missing(s, a) => r[1] = 0) /\ Len(r[2]) = Len(want) /\ \A k \in 1..Len(want) : Same(want[k], r[2][k]),
                [s EXCEPT !.m[a[1]] = want], <<Missing(s, a), want>>)
    [] e.op = "verify" ->
         LET all == IF Len(a) = 2 THEN s.m[a[2]] ELSE s.m[a[2]] \o s.m[a[3]]
              \* (the CRC of zeros is that of nothing)
             Bad(x) == LET c == s.f[x[1]] IN
                       /\ c # <<"gone">> /\ c # x[3]
                       /\ x[2] = "CRC64" /\ c[1] = "bytes" /\ x[3][1] = "bytes" => H!CRC64(c[2]) # H!CRC64(x[3][2])
             bad == SelectSeq(all, Bad)
             want == [k \in 1..Len(bad) |-> bad[k][1]]
             lost == {i \in 0..15 : \E k \in 1..Len(all) : all[k][1] = i /\ s.f[i] = <<"gone">>}
         IN Res(r[2] = want /\ {r[3][k] : k \in 1..Len(r[3])} = lost /\ (r[1] = 0) = (lost = {}), s, <<want, lost>>)
=============================================================================
