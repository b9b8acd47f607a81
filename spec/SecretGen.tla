----------------------------- MODULE SecretGen -----------------------------
(* Random histories of three handles, three rings and a few passphrases that   *)
(* differ in little.                                                           *)
EXTENDS Integers, Sequences, TLC, Gen
Hashes == {"SHA2-256", "SHA1", "MD5", "SHA2-512", "SHA3-256"}
SInit(x) == [up |-> {}, n |-> 0, ph |-> <<>>, ring |-> <<1, 1, 1>>]
Opt(c, q) == IF c THEN q ELSE <<>>
Lens == {1, 2, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 1000, 5000}
Fresh(x) == <<RandomElement(Lens), RandomElement(1..3), RandomElement({0, 0, 1, 2, 16, 33, 64, 100, 1000}), RandomElement(1..3)>>
\* the passphrase of key k, or one close to it
Near(p) == RandomElement({p, p, p, <<p[1] + 1, p[2], p[3], p[4]>>, <<IF p[1] > 1 THEN p[1] - 1 ELSE 2, p[2], p[3], p[4]>>, <<p[1], p[2], p[1], 1>>, <<p[1], p[2], 1, 2>>,
                          <<p[1], p[2], 33, 1>>, <<p[1], p[2], 65, 1>>, <<p[1], p[2], 17, 3>>, <<p[1], 4 - p[2], p[3], p[4]>>})
Hd(st) == RandomElement(st.up)
SOps(st) ==
  <<[op |-> "new", a |-> <<RandomElement(1..3), RandomElement({1, 1, 1, 2, 3}), RandomElement({"SHA2-256", RandomElement(Hashes)}), RandomElement({64, 128, 256, 1000, 1024})>>]>>
  \o Opt(st.up # {},
      <<[op |-> "gen", a |-> <<Hd(st)>> \o (IF st.n > 0 /\ RandomElement(1..3) = 1 THEN Near(st.ph[RandomElement(1..st.n)]) ELSE Fresh(0))],
        [op |-> "bits", a |-> <<Hd(st), RandomElement({64, 65, 71, 72, 128, 200, 256, 1024, 2048, 4096})>>],
        [op |-> "drop", a |-> <<Hd(st)>>]>>)
  \o Opt(st.up # {} /\ st.n > 0,
      LET k == RandomElement(1..st.n)  same == {x \in st.up : TRUE} IN
      <<[op |-> "auth", a |-> <<Hd(st), k, 0>> \o st.ph[k]],
        [op |-> "auth", a |-> <<Hd(st), k, 0>> \o st.ph[k]],
        [op |-> "auth", a |-> <<Hd(st), k, 0>> \o st.ph[k]],
        [op |-> "auth", a |-> <<Hd(st), k, 0>> \o Near(st.ph[k])],
        [op |-> "auth", a |-> <<Hd(st), k, 0>> \o Near(st.ph[k])],
        [op |-> "auth", a |-> <<Hd(st), k, RandomElement(1..3)>> \o st.ph[k]],
        [op |-> "auth", a |-> <<Hd(st), k, 0>> \o st.ph[RandomElement(1..st.n)]],
        [op |-> "auth", a |-> <<Hd(st), 0, 0>> \o st.ph[k]],
        [op |-> "nophrase", a |-> <<Hd(st), k>>]>>)
  \o Opt(st.n > 1 /\ RandomElement(1..6) = 1,
      <<[op |-> "lose", a |-> <<RandomElement(1..3)>>], [op |-> "swap", a |-> RandomElement({<<1, 2>>, <<1, 3>>, <<2, 3>>})], [op |-> "flip", a |-> <<RandomElement(1..3), RandomElement(0..3000), RandomElement({1, 2, 128})>>]>>)
SApply(st, o) == CASE o.op = "new" -> [st EXCEPT !.up = @ \cup {o.a[1]}]
                   [] o.op = "drop" -> [st EXCEPT !.up = @ \ {o.a[1]}]
                   [] o.op = "gen" -> [st EXCEPT !.n = @ + 1, !.ph = Append(@, SubSeq(o.a, 2, 5))]
                   [] OTHER -> st
=============================================================================
