----------------------------- MODULE KeyringFile -----------------------------
(* The key ring as a file: a header and records, one after the other.  The file *)
(* may be cut or altered behind the library's back; whatever it then contains,  *)
(* an export answers with a key that the file holds for exactly that identifier *)
(* or fails, and an import that succeeds keeps every record before the damage.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Byte(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
\* little endian; the two most significant bytes of a length must be clear to be within a file of ours
W16(b, i) == Byte(b, i) + 256 * Byte(b, i + 1)
Size(b, i) == IF W16(b, i + 2) # 0 THEN 1000000 ELSE W16(b, i)
Signature == <<171, 173, 172, 171>>
Major(b, i) == W16(b, i + 8)
Minor(b, i) == W16(b, i + 10)
(* The records from position i on, and whether the file ends in order.  A record *)
(* is signature(4) unused(4) major(2) minor(2) time(8) then identifier, key and  *)
(* nonce, each with its length(4) first.  Records of protocol 1.0 have no time.  *)
RECURSIVE Records(_, _)
Records(b, i) ==
  IF i > Len(b) THEN [recs |-> <<>>, ok |-> TRUE]
  ELSE IF i + 3 > Len(b) \/ SubSeq(b, i, i + 3) # Signature THEN [recs |-> <<>>, ok |-> FALSE]
  ELSE LET p == IF Major(b, i) = 1 /\ Minor(b, i) = 0 THEN i + 12 ELSE i + 20
           m == Size(b, p)  q == p + 4 + m
           n == Size(b, q)  r == q + 4 + n
           o == Size(b, r)  e == r + 4 + o
           Cut(x, l) == SubSeq(b, x + 4, x + 3 + l)
       IN IF p + 3 > Len(b) \/ q + 3 > Len(b) \/ r + 3 > Len(b) \/ e - 1 > Len(b)
          THEN [recs |-> <<>>, ok |-> FALSE]
          ELSE LET rest == Records(b, e)
               IN [recs |-> <<[id |-> Cut(p, m), key |-> Cut(q, n), nonce |-> Cut(r, o)]>> \o rest.recs, ok |-> rest.ok]
RecLen(id, key, nonce) == 32 + Len(id) + Len(key) + Len(nonce)
Holds(rs, id) == {k \in 1..Len(rs) : rs[k].id = id}
KeyringFileInit(cfg) == [b |-> <<>>, head |-> <<>>, hurt |-> FALSE, last |-> <<>>, add |-> <<>>]
KeyringFileStep(s, e) ==
  LET a == e.a  r == e.r
      Res(ok, t, want) == [ok |-> ok, s |-> t, want |-> want]
      h == Len(s.head)
      good == Len(s.b) >= h /\ SubSeq(s.b, 1, h) = s.head
      f == IF good THEN Records(s.b, h + 1) ELSE [recs |-> <<>>, ok |-> FALSE]
      whole == ~s.hurt /\ f.ok
  IN
  CASE e.op = "layout" -> Res(r = 0, s, 0)
    \* the outcome of an import is judged by the file it leaves, at the dump that follows
    [] e.op = "imp" ->
         Res(r[1] = "ret" /\ (whole => r[2] = (IF Holds(f.recs, a[3]) = {} THEN 1 ELSE 0)),
             [s EXCEPT !.last = <<r[2]>>, !.add = <<[id |-> a[3], key |-> a[4], nonce |-> a[5]]>>], "1 for a new identifier, else 0")
    [] e.op = "dump" /\ s.last # <<>> ->
         LET first == s.head = <<>>
             hd == IF first /\ Len(r) >= RecLen(s.add[1].id, s.add[1].key, s.add[1].nonce) THEN SubSeq(r, 1, Len(r) - RecLen(s.add[1].id, s.add[1].key, s.add[1].nonce)) ELSE s.head
             g == IF Len(r) >= Len(hd) /\ SubSeq(r, 1, Len(hd)) = hd THEN Records(r, Len(hd) + 1) ELSE [recs |-> <<>>, ok |-> FALSE]
             want == IF first THEN s.add ELSE IF s.last[1] = 1 THEN f.recs \o s.add ELSE f.recs
         IN Res(g.recs = want /\ (s.last[1] = 1 => g.ok), [s EXCEPT !.b = r, !.head = hd, !.last = <<>>, !.hurt = s.hurt /\ s.last[1] = 0], want)
    [] e.op = "dump" -> Res(r = s.b, s, s.b)
    [] e.op = "exp" ->
         LET ks == Holds(f.recs, a[3])
         IN Res(r[1] = "ret" /\ (\/ r[2] = 0 /\ (whole => ks = {})
                                 \/ r[2] = 1 /\ \E k \in ks : f.recs[k].key = r[3] /\ f.recs[k].nonce = r[4]),
                s, <<whole, {<<f.recs[k].key, f.recs[k].nonce>> : k \in ks}>>)
    [] e.op = "list" ->
         LET all == [k \in 1..Len(f.recs) |-> <<f.recs[k].id, f.recs[k].nonce>>]
             n == Len(r[3])
         IN Res(r[1] = "ret" /\ n <= Len(all) /\ r[3] = SubSeq(all, 1, n) /\ (whole => r[2] = 1 /\ n = Len(all)), s, all)
    [] e.op \in {"cut", "glue"} -> Res(TRUE, [s EXCEPT !.b = r, !.hurt = s.hurt \/ r # s.b], "")
    [] e.op = "poke" -> Res(TRUE, [s EXCEPT !.b = r, !.hurt = s.hurt \/ r # s.b], "")
=============================================================================
