------------------------------ MODULE XmlTree ------------------------------
(* Trees of elements under edits.  Nodes are numbered as they come into being; *)
(* children are kept in the order of their places in the parent's content, a   *)
(* later one after an earlier one at the same place.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
Elems(q) == {q[i] : i \in 1..Len(q)}
Fresh(t, p, o) == [t |-> t, a |-> <<>>, c |-> <<>>, k |-> <<>>, off |-> o, up |-> p, was |-> 0, gone |-> FALSE]
XmlTreeInit(cfg) == [n |-> <<>>, pis |-> <<>>]
\* place a child
Put(st, p, x, o) == LET kids == st.n[p].k
                        after == Cardinality({i \in 1..Len(kids) : st.n[kids[i]].off <= o})
                    IN [st EXCEPT !.n[p].k = SubSeq(kids, 1, after) \o <<x>> \o SubSeq(kids, after + 1, Len(kids)), !.n[x].up = p, !.n[x].was = 0, !.n[x].off = o]
New(st, t) == [st EXCEPT !.n = Append(@, Fresh(t, 0, 0))]
Child(st, p, t) == LET same == SelectSeq(st.n[p].k, LAMBDA x : st.n[x].t = t) IN IF same = <<>> THEN 0 ELSE same[1]
RECURSIVE Walk(_, _, _)
Walk(st, p, path) == IF path = <<>> \/ p = 0 THEN p ELSE Walk(st, Child(st, p, path[1]), Tail(path))
RECURSIVE Make(_, _, _, _)
Make(st, p, path, o) == IF path = <<>> THEN [st |-> st, x |-> p]
                        ELSE LET x == Child(st, p, path[1]) IN
                             IF x # 0 THEN Make(st, x, Tail(path), o)
                             ELSE LET n == New(st, path[1]) IN Make(Put(n, p, Len(n.n), o), Len(n.n), Tail(path), o)
RECURSIVE Under(_, _)
Under(st, x) == {x} \cup UNION {Under(st, y) : y \in Elems(st.n[x].k)}
\* a pruned element is still of the tree it came from, which must outlive it
Tied(st, x) == LET all == Under(st, x) IN \E y \in 1..Len(st.n) : ~st.n[y].gone /\ y \notin all /\ st.n[y].was \in all
\* components of a path, separated by slashes
RECURSIVE Split(_)
Split(q) == IF 47 \in Elems(q) THEN LET i == CHOOSE j \in 1..Len(q) : q[j] = 47 /\ \A m \in 1..(j - 1) : q[m] # 47 IN <<SubSeq(q, 1, i - 1)>> \o Split(SubSeq(q, i + 1, Len(q))) ELSE <<q>>
SetA(a, n, v) == IF \E i \in 1..Len(a) : a[i][1] = n THEN [i \in 1..Len(a) |-> IF a[i][1] = n THEN <<n, v>> ELSE a[i]] ELSE Append(a, <<n, v>>)
Apply1(st, o) ==
  LET a == o.a IN
  CASE o.op = "root" -> [New(st, a[1]) EXCEPT !.pis = [i \in 1..(a[2] + a[3]) |-> IF i <= a[2] THEN <<112, 48 + i>> ELSE <<113, 48 + i>>]]
    [] o.op = "tag" -> New(st, a[1])
    [] o.op = "add" -> LET n == New(st, a[2]) IN Put(n, a[1], Len(n.n), a[3])
    [] o.op = "insert" -> Put(st, a[1], a[2], a[3])
    [] o.op = "prune" -> [st EXCEPT !.n[st.n[a[1]].up].k = SelectSeq(@, LAMBDA x : x # a[1]), !.n[a[1]].up = 0, !.n[a[1]].was = st.n[a[1]].up]
    [] o.op = "drop" -> LET all == Under(st, a[1]) IN [st EXCEPT !.n = [x \in 1..Len(@) |-> IF x \in all THEN [@[x] EXCEPT !.gone = TRUE] ELSE @[x]]]
    [] o.op = "content" -> [st EXCEPT !.n[a[1]].c = a[2]]
    [] o.op = "attr" -> [st EXCEPT !.n[a[1]].a = SetA(@, a[2], a[3])]
    [] o.op = "unattr" -> [st EXCEPT !.n[a[1]].a = SelectSeq(@, LAMBDA p : p[1] # a[2])]
    [] o.op = "addpath" -> Make(st, a[1], Split(a[2]), a[3]).st
    [] OTHER -> st
(* ---------------------------------------------------------- what is seen *)
Alike(st, k, i) == SelectSeq([j \in 1..Len(k) |-> j], LAMBDA j : st.n[k[j]].t = st.n[k[i]].t)
Firsts(st, k) == {j \in 1..Len(k) : \A m \in 1..(j - 1) : st.n[k[m]].t # st.n[k[j]].t}
Seen(node, name) == LET own == {i \in 1..Len(node.a) : node.a[i][1] = name} IN IF own = {} THEN <<-1>> ELSE node.a[CHOOSE i \in own : TRUE][2]
Names == <<<<97>>, <<98, 49>>>>
\* a dump is <<tag, attributes, content, values of the asked names, chains, sibling chain, children>>
RECURSIVE Same(_, _, _)
Same(d, st, x) ==
  LET node == st.n[x] IN
  /\ d[1] = node.t
  /\ Len(d[2]) = Len(node.a) /\ Elems(d[2]) = Elems(node.a)
  /\ d[3] = node.c
  /\ \A i \in 1..Len(Names) : d[4][i] = Seen(node, Names[i])
  /\ Len(d[7]) = Len(node.k)
  /\ Len(d[5]) = Len(node.k) /\ \A i \in 1..Len(node.k) : d[5][i] = Alike(st, node.k, i)
  /\ Len(d[6]) = Cardinality(Firsts(st, node.k)) /\ Elems(d[6]) = Firsts(st, node.k)
  /\ \A i \in 1..Len(node.k) : Same(d[7][i], st, node.k[i])
\* where in the text of its parent each element stands, in document order
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Places(_, _, _)
Places(st, x, p) == <<p>> \o FlattenSeq([i \in 1..Len(st.n[x].k) |-> Places(st, st.n[x].k[i], Min2(st.n[st.n[x].k[i]].off, Len(st.n[x].c)))])
XmlTreeStep(st, e) ==
  LET a == e.a  nx == Apply1(st, e) IN
  CASE e.op = "look" -> [ok |-> Same(e.r, st, a[1]), s |-> st, want |-> st]
    [] e.op = "xml" -> [ok |-> /\ e.r[1] = 1 /\ Same(e.r[2], st, a[1])
                               /\ e.r[4] = Places(st, a[1], 0)
                               /\ e.r[3][1] = IF a[1] = 1 THEN st.pis ELSE <<>>, s |-> st, want |-> <<Places(st, a[1], 0), st>>]
    [] e.op = "addpath" -> [ok |-> e.r = Make(st, a[1], Split(a[2]), a[3]).x, s |-> nx, want |-> Make(st, a[1], Split(a[2]), a[3]).x]
    [] e.op = "getpath" -> [ok |-> e.r = Walk(st, a[1], Split(a[2])), s |-> st, want |-> Walk(st, a[1], Split(a[2]))]
    [] OTHER -> [ok |-> TRUE, s |-> nx, want |-> "-"]
=============================================================================
