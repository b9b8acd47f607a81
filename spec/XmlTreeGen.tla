----------------------------- MODULE XmlTreeGen -----------------------------
(* Random edits of a tree, with a look at it, and at what its text parses to,  *)
(* now and then.                                                               *)
EXTENDS XmlTree, Gen
R(S) == RandomElement(S)
Tag == {<<97>>, <<98>>, <<99>>, <<97, 98>>}
Att == {<<97>>, <<98, 49>>, <<120, 58, 121>>, <<65>>}
Plain == {<<>>, <<120>>, <<120, 121, 122>>, <<60, 38, 62, 34, 39>>, <<97, 10, 98>>, <<9, 97>>, <<13>>, <<120, 13, 10, 121>>, <<32>>, <<93, 93, 62>>, <<38, 108, 116, 59>>, <<38, 35, 54, 53, 59>>, <<32, 120, 32>>, [i \in 1..1000 |-> 120], <<48, 49, 50, 51, 52, 53>>}
Utf == {<<195, 169>>, <<120, 226, 130, 172>>, <<240, 159, 152, 128, 120>>}
Opt(c, q) == IF c THEN q ELSE <<>>
O(op, a) == [op |-> op, a |-> a]
Paths == {<<97>>, <<98>>, <<97, 47, 98>>, <<99, 47, 97>>, <<97, 98, 47, 99>>, <<97, 47, 97, 47, 98>>}
\* a node's text is cut where children stand, which must not be inside a character
Free(st, x) == \A y \in Elems(st.n[x].k) : st.n[y].off = 0
Place(st, p) == IF \E i \in 1..Len(st.n[p].c) : st.n[p].c[i] > 127 THEN R({0, 5000}) ELSE R({0, 0, 1, 2, 3, 4, 6, Len(st.n[p].c), Len(st.n[p].c), 5000, 20000})
SOps(st) ==
  IF st.n = <<>> THEN <<O("root", <<R(Tag), 0, 0>>), O("root", <<R(Tag), R(0..2), R(0..2)>>)>>
  ELSE LET tree == Under(st, 1)
           x == R(tree)
           kids == tree \ {1}
           loose == {y \in 2..Len(st.n) : st.n[y].up = 0 /\ ~st.n[y].gone}
           y == R(IF loose = {} THEN {0} ELSE loose)
           z == R(IF kids = {} THEN {1} ELSE kids)
           c == IF Free(st, x) THEN R(Plain \cup Utf) ELSE R(Plain)
       IN Opt(Len(st.n) < 40, <<O("add", <<x, R(Tag), Place(st, x)>>), O("add", <<x, R(Tag), Len(st.n[x].c)>>), O("add", <<1, R(Tag), Place(st, 1)>>), O("tag", <<R(Tag)>>), O("addpath", <<x, R(Paths), Place(st, x)>>)>>)
          \o <<O("content", <<x, c>>), O("attr", <<x, R(Att), R(Plain \cup Utf)>>), O("attr", <<x, R(Att), R(Plain)>>), O("unattr", <<x, R(Att)>>), O("getpath", <<x, R(Paths)>>),
               O("look", <<1>>), O("xml", <<1>>), O("xml", <<x>>), O("look", <<1>>), O("xml", <<1>>)>>
          \o Opt(kids # {}, <<O("prune", <<z>>), O("prune", <<z>>)>>)
          \o Opt(loose # {}, <<O("insert", <<x, y, Place(st, x)>>), O("insert", <<1, y, Place(st, 1)>>), O("look", <<y>>), O("xml", <<y>>)>>)
          \o Opt(loose # {} /\ ~Tied(st, y), <<O("drop", <<y>>)>>)
SInit(x) == XmlTreeInit(0)
=============================================================================
