------------------------------- MODULE Stream -------------------------------
(* Hash and HMAC objects: what was fed since the last initialization is the     *)
(* whole state, the answer at the end is the published function of it.          *)
EXTENDS Hash, FiniteSets
LOCAL INSTANCE SequencesExt
(* A message described by three numbers, so that long ones stay short to write *)
Msg(n, p, c) == FoldLeft(LAMBDA acc, k : Append(acc, (k * p + (k \div 256) * 5 + c) % 256), <<>>, [k \in 1..n |-> k])
LOCAL HexD == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
Hex(q) == FoldLeft(LAMBDA acc, b : acc \o <<HexD[(b \div 16) + 1], HexD[(b % 16) + 1]>>, <<>>, q)
\* number of ways of cutting, written one after another with 255 between them
Ways(p) == Len(SelectSeq(p, LAMBDA v : v = 255)) + 1
None == [kind |-> "none", alg |-> "", ph |-> "", msg |-> <<>>, key |-> <<>>]
CONSTANT NObj
StreamInit(cfg) == [i \in 1..NObj |-> None]
Obj(k, alg) == [kind |-> k, alg |-> alg, ph |-> "new", msg |-> <<>>, key |-> <<>>]
StreamDo(s, o) ==
  LET i == IF o.op \in {"gen", "hgen", "huge", "vast"} THEN 1 ELSE o.a[1]
      Put(b, r) == [s |-> [s EXCEPT ![i] = b], r |-> r]
      Same(r) == [s |-> s, r |-> r]
  IN
  CASE o.op = "gen" -> LET d == Digest(o.a[1], Msg(o.a[2], o.a[3], o.a[4])) IN
                       Same(<<[k \in 1..Ways(o.a[5]) |-> d], Hex(d), Len(d), BlockSize(o.a[1])>>)
    [] o.op = "hgen" -> LET d == HMAC(o.a[1], Msg(o.a[2], 3, 1), Msg(o.a[3], 7, o.a[4])) IN
                        Same(<<[k \in 1..Ways(o.a[5]) |-> d], d, d, Len(d)>>)
    \* the bit count passes 2^32
    [] o.op = "huge" -> Same(Huge[o.a[1]])
    [] o.op = "vast" -> Same(Vast[o.a[1]])
    [] o.op = "acq" -> Put(Obj("hash", o.a[2]), 0)
    [] o.op = "init" -> Put([s[i] EXCEPT !.msg = <<>>, !.ph = "open"], 1)
    [] o.op = "upd" -> Put([s[i] EXCEPT !.msg = @ \o o.a[2]], 1)
    [] o.op = "fin" -> Put([s[i] EXCEPT !.ph = "done"], Digest(s[i].alg, s[i].msg))
    [] o.op = "again" -> Same(IF s[i].kind = "hash" THEN Digest(s[i].alg, s[i].msg) ELSE HMAC(s[i].alg, s[i].key, s[i].msg))
    [] o.op = "del" -> Put(None, 0)
    [] o.op = "hacq" -> Put(Obj("hmac", o.a[2]), 0)
    [] o.op = "hinit" -> Put([s[i] EXCEPT !.msg = <<>>, !.key = o.a[2], !.ph = "open"], 0)
    [] o.op = "hreset" -> Put([s[i] EXCEPT !.msg = <<>>, !.ph = "open"], 0)
    [] o.op = "hupd" -> Put([s[i] EXCEPT !.msg = @ \o o.a[2]], 0)
    [] o.op = "hfin" -> Put([s[i] EXCEPT !.ph = "done"], HMAC(s[i].alg, s[i].key, s[i].msg))
    [] o.op = "hcons" -> Put([s[i] EXCEPT !.key = o.a[2], !.msg = o.a[3], !.ph = "done"], HMAC(s[i].alg, o.a[2], o.a[3]))
StreamStep(s, e) == LET d == StreamDo(s, e) IN [ok |-> d.r = e.r, s |-> d.s, want |-> d.r]

(* random walks; the digests themselves are not needed to go on *)
StreamApply(s, o) ==
  LET i == o.a[1]
      Put(b) == [s EXCEPT ![i] = b]
  IN CASE o.op = "acq" -> Put(Obj("hash", o.a[2]))
       [] o.op = "hacq" -> Put(Obj("hmac", o.a[2]))
       [] o.op \in {"init", "hreset"} -> Put([s[i] EXCEPT !.msg = <<>>, !.ph = "open"])
       [] o.op = "hinit" -> Put([s[i] EXCEPT !.msg = <<>>, !.ph = "open", !.key = <<0>>])
       [] o.op \in {"upd", "hupd"} -> Put([s[i] EXCEPT !.msg = @ \o o.a[2]])
       [] o.op \in {"fin", "hfin"} -> Put([s[i] EXCEPT !.ph = "done"])
       [] o.op = "again" -> s
       [] o.op = "hcons" -> Put([s[i] EXCEPT !.ph = "done", !.key = <<0>>])
       [] o.op = "del" -> Put(None)
CONSTANTS WithHmac, MaxMsg
Lens == {0, 1, 3, 7, 20, 31, 32, 55, 56, 63, 64, 65, 71, 72, 73, 100, 104, 111, 112, 119, 127, 128, 129, 136, 143, 144, 145}
Rnd(n) == [k \in 1..n |-> RandomElement(0..255)]
OneLen(S) == RandomElement(S)
StreamOps(s) ==
  LET i == RandomElement(1..NObj)
      b == s[i]
      m == Rnd(RandomElement(Lens)) \o <<>>
      k == Rnd(RandomElement(Lens)) \o <<>>
  IN IF b.kind = "none"
     THEN {[op |-> IF WithHmac THEN "hacq" ELSE "acq", a |-> <<i, RandomElement(Algorithms)>>]}
     ELSE IF WithHmac
     THEN (IF b.ph = "open" THEN {[op |-> "hfin", a |-> <<i>>]}
                                 \cup (IF Len(b.msg) < MaxMsg THEN {[op |-> "hupd", a |-> <<i, m>>]} ELSE {})
           ELSE {[op |-> "hinit", a |-> <<i, k>>], [op |-> "hcons", a |-> <<i, k, m>>]}
                \cup (IF b.ph = "done" THEN {[op |-> "hreset", a |-> <<i>>], [op |-> "again", a |-> <<i>>]} ELSE {})
                \cup {[op |-> "del", a |-> <<i>>]})
     ELSE (IF b.ph = "open" THEN {[op |-> "fin", a |-> <<i>>], [op |-> "init", a |-> <<i>>]}
                                 \cup (IF Len(b.msg) < MaxMsg THEN {[op |-> "upd", a |-> <<i, m>>]} ELSE {})
           ELSE {[op |-> "init", a |-> <<i>>], [op |-> "del", a |-> <<i>>]}
                \cup (IF b.ph = "done" THEN {[op |-> "again", a |-> <<i>>]} ELSE {}))
=============================================================================
