-------------------------------- MODULE Bytes --------------------------------
(* Length-counted byte strings: a few variables holding finite byte           *)
(* sequences.  -1 stands for a byte nobody has determined (the part a string  *)
(* grew by).  The state maps each variable to <<>> (absent) or <<sequence>>.  *)
(* Every answer is <<result, contents of all variables>>, so a call that      *)
(* changes a string it should not change is noticed.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Regs, Payloads, Texts, Lens, MaxLen
BytesInit(cfg) == [r \in 1..3 |-> <<>>]
LOCAL MinI(a, b) == IF a < b THEN a ELSE b
LOCAL Take(q, n) == SubSeq(q, 1, n)
LOCAL Drop(q, n) == SubSeq(q, n + 1, Len(q))
LOCAL Fill(n, b) == [j \in 1..n |-> b]
\* lexicographic, unsigned, a proper prefix first
LOCAL Cmp(p, q) ==
  LET m == MinI(Len(p), Len(q))
      D == {j \in 1..m : p[j] # q[j]}
  IN IF D = {} THEN (IF Len(p) = Len(q) THEN 0 ELSE IF Len(p) < Len(q) THEN -1 ELSE 1)
     ELSE LET j == CHOOSE x \in D : \A y \in D : x <= y IN IF p[j] < q[j] THEN -1 ELSE 1
LOCAL Known(q) == \A j \in 1..Len(q) : q[j] # -1
LOCAL Ans(s, r) == [s |-> s, r |-> r]
LOCAL Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d

BytesDo(s, o) ==
  LET r == o.a[1]
      v == IF s[r] = <<>> THEN <<>> ELSE s[r][1]
      w(k) == s[o.a[k]][1]
  IN
  CASE o.op = "new" -> Ans([s EXCEPT ![r] = <<Fill(o.a[2], 0)>>], <<>>)
    [] o.op = "blob" -> Ans([s EXCEPT ![r] = <<o.a[4]>>], <<>>)
    [] o.op = "text" -> Ans([s EXCEPT ![r] = <<o.a[4]>>], <<>>)
    [] o.op = "clone" -> Ans([s EXCEPT ![r] = <<w(2)>>], <<>>)
    [] o.op = "concat" -> Ans([s EXCEPT ![r] = <<v \o w(2)>>], <<>>)
    [] o.op = "split" ->   \* the first part is returned, the rest stays
         IF o.a[3] > Len(v) THEN Ans(s, <<0>>)
         ELSE Ans([s EXCEPT ![r] = <<Drop(v, o.a[3])>>, ![o.a[2]] = <<Take(v, o.a[3])>>], <<1>>)
    [] o.op = "set" ->     \* keeps its length: cut or zero padded
         Ans([s EXCEPT ![r] = <<Take(w(2), MinI(Len(v), Len(w(2)))) \o Fill(IF Len(v) > Len(w(2)) THEN Len(v) - Len(w(2)) ELSE 0, 0)>>], <<>>)
    [] o.op = "setdatum" -> Ans([s EXCEPT ![r] = <<Take(o.a[4], Len(v))>>], <<>>)
    [] o.op = "setlen" ->
         Ans([s EXCEPT ![r] = <<Take(v, MinI(Len(v), o.a[2])) \o Fill(IF o.a[2] > Len(v) THEN o.a[2] - Len(v) ELSE 0, -1)>>], <<>>)
    [] o.op = "reset" -> Ans([s EXCEPT ![r] = <<Fill(Len(v), 0)>>], <<>>)
    [] o.op = "compare" -> Ans(s, IF Known(v) /\ Known(w(2)) THEN <<Cmp(v, w(2))>> ELSE <<-9>>)
    [] o.op = "tostring" -> Ans(s, v)
    [] o.op = "tohex" -> Ans(s, IF Known(v) THEN [j \in 1..(2 * Len(v)) |->
                                 LET b == v[(j + 1) \div 2] IN Hex(IF j % 2 = 1 THEN b \div 16 ELSE b % 16)]
                                ELSE <<-9>>)
    [] o.op = "destroy" -> Ans([s EXCEPT ![r] = <<>>], <<>>)

LOCAL MatchSeq(want, got) == Len(want) = Len(got) /\ \A j \in 1..Len(want) : want[j] = -1 \/ want[j] = got[j]
LOCAL MatchReg(want, got) == IF want = <<>> THEN got = <<>> ELSE got # <<>> /\ MatchSeq(want[1], got[1])
BytesStep(s, e) ==
  LET d == BytesDo(s, e) IN
  [ok |-> /\ (d.r = <<-9>> \/ IF e.op = "tostring" THEN MatchSeq(d.r, e.r[1]) ELSE e.r[1] = d.r)
          /\ \A k \in 1..3 : MatchReg(d.s[k], e.r[2][k]),
   s |-> d.s, want |-> <<d.r, d.s>>]
BytesApply(s, o) == BytesDo(s, o).s

BytesOps(s) ==
  LET have == {r \in Regs : s[r] # <<>>}
      size(r) == Len(s[r][1])
  IN {[op |-> "new", a |-> <<r, n>>] : r \in Regs \ have, n \in Lens}
     \cup {[op |-> "blob", a |-> <<r, 0, 0, p>>] : r \in Regs \ have, p \in Payloads}
     \cup {[op |-> "text", a |-> <<r, 0, 0, p>>] : r \in Regs \ have, p \in Texts}
     \cup {[op |-> "clone", a |-> <<r, x>>] : r \in Regs \ have, x \in have}
     \cup {[op |-> "concat", a |-> <<r, x>>] : r \in have, x \in have}
     \cup {[op |-> "set", a |-> <<r, x>>] : r \in have, x \in have}
     \cup {[op |-> "compare", a |-> <<r, x>>] : r \in have, x \in have}
     \cup UNION {{[op |-> "split", a |-> <<r, x, n>>] : n \in 0..(MinI(size(r), 6) + 1) \cup {size(r)}} : r \in have, x \in Regs \ have}
     \cup UNION {{[op |-> "setdatum", a |-> <<r, 0, 0, p>>] : p \in {z \in Payloads : Len(z) >= size(r)}} : r \in have}
     \cup {[op |-> "setlen", a |-> <<r, n>>] : r \in have, n \in Lens}
     \cup {[op |-> x, a |-> <<r>>] : x \in {"reset", "tostring", "tohex", "destroy"}, r \in have}
\* leave out what would grow strings beyond the bound
BytesOpsB(s) == {o \in BytesOps(s) : o.op # "concat" \/ Len(s[o.a[1]][1]) + Len(s[o.a[2]][1]) <= MaxLen}
BytesTypeOK(s) == \A r \in 1..3 : s[r] = <<>> \/ (\A j \in 1..Len(s[r][1]) : s[r][1][j] \in -1..255)
=============================================================================
