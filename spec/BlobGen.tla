------------------------------ MODULE BlobGen ------------------------------
(* Random use of streams: several open at a time, over different files.       *)
EXTENDS Blob, Gen
R(S) == RandomElement(S)
O(op, a) == [op |-> op, a |-> a]
Opt(c, q) == IF c THEN q ELSE <<>>
Sz(x) == IF R(1..12) = 1 THEN R({8191, 8192, 8193, 16383, 16384, 16385, 20000, 70000}) ELSE R({0, 1, 2, 3, 4, 5, 6, 17, 300, 1000})
Pa(x) == R(0..255)
De(x) == R({1, 3, 0, 255, 77})
Busy(st, f) == \E x \in 1..3 : st.h[x].f = f
Idle(st) == {x \in 1..3 : st.h[x].m = 0}
Rd(st) == {x \in 1..3 : st.h[x].m = 1}
Wr(st) == {x \in 1..3 : st.h[x].m = 2}
Kinds(f) == CASE f = 2 -> {1} [] f = 3 -> {2} [] OTHER -> {0, 1, 2}
Parts(k, st) == IF k = 1 THEN R({1, 1, 2, 3}) ELSE 1
Plain(st, x) == st.f[st.h[x].f].k = 0
\* a command inherits what is open when it starts, the ends of named pipes too
Safe(st, q) == IF \E x \in 1..3 : st.h[x].m > 0 /\ st.h[x].how \in ({2, 3} \ {q}) THEN 0 ELSE q
SOps(st) ==
  LET f == R(1..NF)  free == ~Busy(st, f)
      x == R(IF Idle(st) = {} THEN {1} ELSE Idle(st))
      r == R(IF Rd(st) = {} THEN {1} ELSE Rd(st))
      w == R(IF Wr(st) = {} THEN {1} ELSE Wr(st))
      fr == st.h[r].f  fw == st.h[w].f
      k == R(Kinds(f))
      how == Safe(st, R({0, 0, 0, 1, 2, 3}))
  IN Opt(free, <<O("put", <<f, k, Pa(0), De(0), Sz(0), Parts(k, st)>>)>>)
     \o Opt(free /\ st.f[f].has /\ ~st.f[f].bad, <<O("cat", <<f>>)>>)
     \o Opt(free /\ st.f[f].has /\ st.f[f].k > 0 /\ st.f[f].parts = 1, <<O("harm", <<f, R(0..999), R(0..3)>>)>>)
     \o Opt(free /\ Idle(st) # {}, <<O("wopen", <<x, f, R({0, 1}), how>>), O("wopen", <<x, f, 1, 0>>)>>)
     \o Opt(free /\ Idle(st) # {} /\ R(1..4) = 1, <<O("wopen", <<x, f, 1, 4>>)>>)
     \o Opt(free /\ Idle(st) # {} /\ (~st.f[f].bad \/ R(1..2) = 1), <<O("ropen", <<x, f, IF st.f[f].k = 0 THEN R({0, 1}) ELSE 1, IF st.f[f].k = 0 /\ st.f[f].has THEN how ELSE 0, R({1, 7, 500, 9000, 100000})>>)>>)
     \o Opt(Rd(st) # {}, <<O("read", <<r, Sz(0)>>), O("rchunk", <<r, Sz(0)>>), O("read", <<r, R(0..5)>>), O("rbyte", <<r>>), O("rchunk", <<r, 100000>>), O("eof", <<r>>), O("eof", <<r>>), O("close", <<r>>)>>)
     \o Opt(Rd(st) # {} /\ st.h[r].how = 0 /\ ~st.f[fr].bad, <<O("extent", <<r, Sz(0)>>)>> \o Opt(Plain(st, r), <<O("size", <<r>>), O("tell", <<r>>)>>) \o Opt(st.f[fr].k = 1, <<O("tell", <<r>>)>>))
     \o Opt(Wr(st) # {}, <<O("write", <<w, Pa(0), De(0), Sz(0)>>), O("wchunk", <<w, Pa(0), De(0), Sz(0)>>), O("write", <<w, Pa(0), De(0), R(0..5)>>), O("wbyte", <<w, Pa(0)>>), O("wstr", <<w, Pa(0), Sz(0)>>), O("sync", <<w>>), O("close", <<w>>), O("close", <<w>>)>>)
     \o Opt(Wr(st) # {} /\ st.h[w].how < 2 /\ R(1..3) = 1, <<O("drop", <<w>>)>>)
     \o Opt(Wr(st) # {} /\ ((st.h[w].how = 0 /\ st.f[fw].k = 0) \/ st.h[w].how = 1), <<O("extent", <<w, Sz(0)>>), O("extent", <<w, Max2(0, Len(st.f[fw].c) + R(-3..3))>>), O("tell", <<w>>)>>)
     \o Opt(Wr(st) # {} /\ st.h[w].how = 0 /\ st.f[fw].k = 1, <<O("tell", <<w>>)>>)
SInit(x) == BlobInit(0)
=============================================================================
