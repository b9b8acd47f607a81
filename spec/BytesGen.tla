----------------------------- MODULE BytesGen -----------------------------
EXTENDS Bytes, Gen
OK == BytesTypeOK(s)
\* payloads for the covering runs: zero bytes, high bytes, prefixes
Small == {<<>>, <<0, 255>>}
SmallTexts == {<<98>>}
\* payloads for the walks: many lengths, all byte values
P(n, z) == [i \in 1..n |-> (z * 79 + i * i * 31 + i * z * 7) % 256]
T(n, z) == [i \in 1..n |-> 1 + ((z * 79 + i * i * 31) % 255)]
Many == {P(n, z) : n \in {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 64, 127, 128, 129, 255, 300}, z \in {3, 10}}
ManyTexts == {T(n, z) : n \in {0, 1, 5, 16, 100}, z \in {3, 10}}
\* one candidate of each kind
R(S) == RandomElement(S)
BytesOpsW(v) ==
  LET have == {r \in Regs : v[r] # <<>>}
      none == Regs \ have
      size(r) == Len(v[r][1])
  IN (IF none = {} THEN {} ELSE
       {[op |-> "new", a |-> <<R(none), R(Lens)>>], [op |-> "blob", a |-> <<R(none), 0, 0, R(Payloads)>>],
        [op |-> "text", a |-> <<R(none), 0, 0, R(Texts)>>]}
       \cup (IF have = {} THEN {} ELSE
             {[op |-> "clone", a |-> <<R(none), R(have)>>]} \cup
             {[op |-> "split", a |-> <<r, R(none), R(0..(size(r) + 1))>>] : r \in {R(have)}}))
     \cup (IF have = {} THEN {} ELSE
       {[op |-> R({"set", "compare"}), a |-> <<R(have), R(have)>>],
        [op |-> R({"setlen"}), a |-> <<R(have), R(Lens)>>],
        [op |-> R({"tostring", "tohex"}), a |-> <<R(have)>>],
        [op |-> R({"reset", "destroy", "tohex"}), a |-> <<R(have)>>]}
       \cup {[op |-> "concat", a |-> <<r, x>>] : r \in {y \in {R(have)} : size(y) < 400}, x \in {y \in {R(have)} : size(y) <= 300}}
       \cup {[op |-> "setdatum", a |-> <<r, 0, 0, P(size(r), R(1..50))>>] : r \in {R(have)}})
=============================================================================
