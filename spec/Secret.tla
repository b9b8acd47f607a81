------------------------------- MODULE Secret -------------------------------
(* Keys kept under a passphrase.  Every key generated is remembered with the   *)
(* ring, hash and passphrase it was generated under; a later attempt succeeds  *)
(* exactly when all three and the identifier agree, and hands out that key.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* rings 1..3 are files; 4 lies in a directory that does not exist
Rings == 1..4
\* a passphrase: n bytes of pattern b, byte at changed by d; never a NUL
Norm(p) == IF p[1] = 0 THEN <<0, 0, 0, 0>> ELSE IF p[3] = 0 \/ p[3] > p[1] THEN <<p[1], p[2], 0, 0>> ELSE p
SecretInit(cfg) == [h |-> [k \in 1..3 |-> [up |-> FALSE, ring |-> 1, hash |-> "", bits |-> 0]],
                    gen |-> <<>>,          \* keys generated, in order
                    hurt |-> {}]           \* rings that were damaged
Range(q) == {q[k] : k \in 1..Len(q)}
OnRing(st, g) == {k \in 1..Len(st.gen) : st.gen[k].in /\ st.gen[k].ring = g}
Yes(st) == [ok |-> TRUE, s |-> st, want |-> "-"]
No(w) == [ok |-> FALSE, s |-> 0, want |-> w]
SecretStep(st, e) ==
  LET a == e.a  r == e.r  hd == st.h[a[1]] IN
  CASE e.op = "new" -> Yes([st EXCEPT !.h[a[1]] = [up |-> TRUE, ring |-> a[2], hash |-> a[3], bits |-> a[4]]])
    [] e.op = "bits" -> IF r = a[2] THEN Yes([st EXCEPT !.h[a[1]].bits = a[2]]) ELSE No("the length that was set")
    [] e.op = "gen" ->
         IF r[1] = 0
         THEN IF hd.ring = 4 \/ a[2] = 0 \/ hd.ring \in st.hurt THEN Yes([st EXCEPT !.gen = Append(@, [in |-> FALSE, ring |-> 0, hash |-> "", phrase |-> <<>>, id |-> <<>>, key |-> <<>>])])
              ELSE No("a key")
         ELSE IF hd.ring = 4 THEN No("a refusal: the key cannot be kept")
         ELSE IF Len(r[3]) # hd.bits \div 8 THEN No("a key of the length asked for")
         ELSE IF \E g \in Range(st.gen) : g.id = r[2] THEN No("an identifier of its own")
         ELSE IF hd.bits >= 64 /\ \E g \in Range(st.gen) : g.key = r[3] THEN No("a key of its own")
         ELSE Yes([st EXCEPT !.gen = Append(@, [in |-> TRUE, ring |-> hd.ring, hash |-> hd.hash, phrase |-> Norm(SubSeq(a, 2, 5)), id |-> r[2], key |-> r[3]])])
    \* a[2]: whose identifier (0: one of nobody); a[3]: 0 as it is, 1 a bit changed, 2 shortened, 3 lengthened
    [] e.op = "auth" ->
         LET g == st.gen[a[2]]
             right == IF a[2] = 0 THEN FALSE ELSE a[3] = 0 /\ g.in /\ g.ring = hd.ring /\ g.hash = hd.hash /\ g.phrase = Norm(SubSeq(a, 4, 7))
         IN IF right
            THEN IF r[1] = 1 THEN IF r[2] = g.key THEN Yes(st) ELSE No(g.key)
                 ELSE IF hd.ring \in st.hurt /\ r[2] = <<-1>> THEN Yes(st) ELSE No("the key")
            ELSE IF r = <<0, <<-1>>>> THEN Yes(st) ELSE No("a refusal and no key")
    [] e.op = "nophrase" -> IF r = <<0, <<-1>>>> THEN Yes(st) ELSE No("a refusal and no key")
    [] e.op = "drop" -> Yes([st EXCEPT !.h[a[1]].up = FALSE])
    [] e.op = "lose" -> Yes([st EXCEPT !.gen = [k \in 1..Len(@) |-> IF @[k].ring = a[1] THEN [@[k] EXCEPT !.in = FALSE] ELSE @[k]], !.hurt = @ \ {a[1]}])
    \* two rings change places
    [] e.op = "swap" -> Yes([st EXCEPT !.gen = [k \in 1..Len(@) |-> [@[k] EXCEPT !.ring = CASE @ = a[1] -> a[2] [] @ = a[2] -> a[1] [] OTHER -> @]],
                                       !.hurt = {CASE x = a[1] -> a[2] [] x = a[2] -> a[1] [] OTHER -> x : x \in @}])
    [] e.op = "flip" -> Yes([st EXCEPT !.hurt = @ \cup {a[1]}])
=============================================================================
