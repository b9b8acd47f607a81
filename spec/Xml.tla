-------------------------------- MODULE Xml --------------------------------
(* XML documents, token by token, and the tree each of them spells.  A         *)
(* behaviour is a sequence of tokens; each carries, last, the text it adds to  *)
(* the document.  "parse" hands the text to the parser.                        *)
(*                                                                             *)
(* A tree is [t |-> tag, a |-> attributes, c |-> content, k |-> children];     *)
(* text is a sequence of bytes.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
Elems(q) == {q[i] : i \in 1..Len(q)}
Space == {9, 10, 13, 32}
(* ------------------------------------------------------------- references *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Digit(b) == IF b >= 97 THEN b - 87 ELSE IF b >= 65 THEN b - 55 ELSE b - 48
Number(q, base) == FoldLeft(LAMBDA acc, b : acc * base + Digit(b), 0, q)
Predefined == <<<<<<108, 116>>, <<60>>>>, <<<<103, 116>>, <<62>>>>, <<<<113, 117, 111, 116>>, <<34>>>>, <<<<97, 112, 111, 115>>, <<39>>>>, <<<<97, 109, 112>>, <<38>>>>>>
\* position of the first b at or after i, 0 if there is none
Find(q, b, i) == LET at == {k \in i..Len(q) : q[k] = b} IN IF at = {} THEN 0 ELSE CHOOSE k \in at : \A j \in at : k <= j
\* line ends become one newline
Lines(q) == LET keep == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : ~(q[i] = 10 /\ i > 1 /\ q[i - 1] = 13))
            IN [i \in 1..Len(keep) |-> IF q[keep[i]] = 13 THEN 10 ELSE q[keep[i]]] \o <<>>
\* the text with its references replaced; white space that is spelled out becomes a space in attributes
RECURSIVE Expand(_, _, _)
Expand(q, ents, attr) ==
  IF q = <<>> THEN <<>>
  ELSE LET amp == Find(q, 38, 1)
           Plain(x) == IF attr THEN [i \in 1..Len(x) |-> IF x[i] \in Space THEN 32 ELSE x[i]] \o <<>> ELSE x
       IN IF amp = 0 THEN Plain(q)
          ELSE LET semi == Find(q, 59, amp)
                   name == SubSeq(q, amp + 1, semi - 1)
                   rest == SubSeq(q, semi + 1, Len(q))
                   value == IF name[1] = 35
                            THEN Utf8(IF name[2] = 120 THEN Number(SubSeq(name, 3, Len(name)), 16) ELSE Number(SubSeq(name, 2, Len(name)), 10))
                            ELSE IF \E k \in 1..5 : Predefined[k][1] = name THEN Predefined[CHOOSE k \in 1..5 : Predefined[k][1] = name][2]
                            ELSE LET k == CHOOSE j \in 1..Len(ents) : ents[j][1] = name /\ \A m \in 1..(j - 1) : ents[m][1] # name IN Expand(ents[k][2], ents, attr)
               IN Plain(SubSeq(q, 1, amp - 1)) \o value \o Expand(rest, ents, attr)
\* the value of an entity: character references are replaced where it is declared
RECURSIVE Declared(_)
Declared(q) ==
  LET amp == Find(q, 38, 1) IN
  IF amp = 0 THEN q
  ELSE IF amp < Len(q) /\ q[amp + 1] = 35
       THEN LET semi == Find(q, 59, amp) IN SubSeq(q, 1, amp - 1) \o Expand(SubSeq(q, amp, semi), <<>>, FALSE) \o Declared(SubSeq(q, semi + 1, Len(q)))
       ELSE SubSeq(q, 1, amp) \o Declared(SubSeq(q, amp + 1, Len(q)))
\* attributes declared other than as character data: spaces trimmed, runs of them one
Trim(q) == LET keep == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : q[i] # 32 \/ (i > 1 /\ q[i - 1] # 32 /\ \E j \in i..Len(q) : q[j] # 32))
           IN [i \in 1..Len(keep) |-> q[keep[i]]] \o <<>>
(* ------------------------------------------------------------------ trees *)
Node(t) == [t |-> t, a |-> <<>>, c |-> <<>>, k |-> <<>>]
Skip(t) == t \in {<<114, 100, 102, 58, 66, 97, 103>>, <<114, 100, 102, 58, 83, 101, 113>>}      \* rdf:Bag, rdf:Seq
XmlInit(cfg) == [open |-> <<>>,        \* elements begun and not ended, outermost first
                 root |-> <<>>,        \* the root element when it has ended
                 skip |-> 0,           \* depth inside a collection that is left out
                 tag |-> FALSE,        \* inside a tag
                 names |-> <<>>,       \* names of all open elements, also those left out
                 ents |-> <<>>, defs |-> <<>>, pis |-> <<>>,
                 tail |-> 0,           \* bytes since the root element ended
                 bad |-> FALSE]        \* the document is not well-formed
Last1(q) == q[Len(q)]
\* the innermost open element ends
End(st, raw) ==
  LET up == SubSeq(st.names, 1, Len(st.names) - 1) IN
  IF st.skip > 0 THEN [st EXCEPT !.skip = @ - 1, !.names = up, !.tag = FALSE]
  ELSE IF Len(st.open) = 1 THEN [st EXCEPT !.root = st.open, !.open = <<>>, !.tail = 0, !.names = up, !.tag = FALSE]
  ELSE LET n == Len(st.open) IN
       [st EXCEPT !.open = [SubSeq(@, 1, n - 1) EXCEPT ![n - 1].k = Append(@, st.open[n])], !.names = up, !.tag = FALSE]
Text(st, q) == IF st.skip > 0 \/ st.open = <<>> THEN st ELSE [st EXCEPT !.open[Len(st.open)].c = @ \o q]
Kind(st, tag, name) == LET d == {k \in 1..Len(st.defs) : st.defs[k].tag = tag /\ st.defs[k].name = name} IN
                       IF d = {} THEN [any |-> FALSE] ELSE [any |-> TRUE, d |-> st.defs[CHOOSE k \in d : \A j \in d : k <= j]]
Value(st, tag, name, raw) == LET k == Kind(st, tag, name)  v == Expand(Lines(raw), st.ents, TRUE) IN IF k.any THEN IF k.d.cdata THEN v ELSE Trim(v) ELSE v
Token(st, e) ==
  LET a == e.a  raw == a[Len(a)] IN
  CASE e.op \in {"ws", "comment", "decl", "dtd"} -> st
    [] e.op = "bad" -> [st EXCEPT !.bad = TRUE]
    [] e.op = "pi" -> [st EXCEPT !.pis = Append(@, <<a[1], a[2]>>)]
    [] e.op = "entity" -> [st EXCEPT !.ents = Append(@, <<a[1], Declared(Lines(a[2]))>>)]
    [] e.op = "attlist" -> [st EXCEPT !.defs = Append(@, [tag |-> a[1], name |-> a[2], cdata |-> a[3] = 1, has |-> a[4] = 1,
                                                       v |-> LET v == Expand(Lines(a[5]), st.ents, TRUE) IN IF a[3] = 1 THEN v ELSE Trim(v)])]
    [] e.op = "tag" -> IF st.skip > 0 \/ Skip(a[1]) THEN [st EXCEPT !.skip = @ + 1, !.names = Append(@, a[1]), !.tag = TRUE]
                       ELSE [st EXCEPT !.open = Append(@, Node(a[1])), !.names = Append(@, a[1]), !.tag = TRUE]
    [] e.op = "attr" -> IF st.skip > 0 THEN st
                        ELSE LET n == Len(st.open) IN [st EXCEPT !.open[n].a = Append(@, <<a[1], Value(st, st.open[n].t, a[1], a[2])>>)]
    [] e.op = "gt" -> [st EXCEPT !.tag = FALSE]
    [] e.op \in {"empty", "close"} -> End(st, raw)
    [] e.op = "text" -> Text(st, Expand(Lines(raw), st.ents, FALSE))
    [] e.op = "cdata" -> Text(st, Lines(a[1]))
Tail1(st, n, raw) == IF n.root # <<>> /\ st.root = <<>> THEN 0 ELSE st.tail + Len(raw)
(* ---------------------------------------------------------- what is seen *)
\* indices of the children with the tag of child i
Alike(k, i) == SelectSeq([j \in 1..Len(k) |-> j], LAMBDA j : k[j].t = k[i].t)
\* the first child of each tag
Firsts(k) == {j \in 1..Len(k) : \A m \in 1..(j - 1) : k[m].t # k[j].t}
\* value of an attribute: its own, else the one declared for the tag
Seen(defs, node, name) == LET own == {i \in 1..Len(node.a) : node.a[i][1] = name}
                              d == {k \in 1..Len(defs) : defs[k].tag = node.t /\ defs[k].name = name}
                          IN IF own # {} THEN node.a[CHOOSE i \in own : TRUE][2]
                             ELSE IF d = {} THEN <<-1>>
                             ELSE LET k == CHOOSE k \in d : \A j \in d : k <= j IN IF defs[k].has THEN defs[k].v ELSE <<-1>>
\* a dump is <<tag, attributes, content, values of the asked names, chains, sibling chain, children>>
RECURSIVE Same(_, _, _, _)
Same(d, node, defs, names) ==
  /\ d[1] = node.t
  /\ Len(d[2]) = Len(node.a) /\ Elems(d[2]) = Elems(node.a)
  /\ d[3] = node.c
  /\ Len(d[4]) = Len(names) /\ \A i \in 1..Len(names) : d[4][i] = Seen(defs, node, names[i])
  /\ Len(d[7]) = Len(node.k)
  /\ Len(d[5]) = Len(node.k) /\ \A i \in 1..Len(node.k) : d[5][i] = Alike(node.k, i)
  /\ Len(d[6]) = Cardinality(Firsts(node.k)) /\ Elems(d[6]) = Firsts(node.k)
  /\ \A i \in 1..Len(node.k) : Same(d[7][i], node.k[i], defs, names)
PIs(st, target) == LET q == SelectSeq(st.pis, LAMBDA p : p[1] = target) IN [i \in 1..Len(q) |-> q[i][2]] \o <<>>
Targets == <<<<116>>, <<117, 50>>>>
XmlStep(st, e) ==
  CASE e.op = "parse" ->
         IF st.bad \/ st.root = <<>> THEN [ok |-> e.r[1] = 0, s |-> st, want |-> "a refusal"]
         ELSE [ok |-> /\ e.r[1] = 1
                      /\ Same(e.r[2], st.root[1], st.defs, e.r[4])
                      /\ \A i \in 1..2 : e.r[3][i] = PIs(st, Targets[i]), s |-> st, want |-> <<st.root[1], st.pis>>]
    \* the last n bytes are lost: the document ends inside its root element, or nothing is known
    [] e.op = "cut" -> [ok |-> IF e.a[1] > st.tail /\ ~st.bad THEN e.r[1] = 0 ELSE TRUE, s |-> st, want |-> "a refusal"]
    [] OTHER -> IF st.bad THEN [ok |-> TRUE, s |-> st, want |-> "-"]
                ELSE LET n == Token(st, e) IN [ok |-> TRUE, s |-> [n EXCEPT !.tail = Tail1(st, n, e.a[Len(e.a)])], want |-> "-"]
=============================================================================
