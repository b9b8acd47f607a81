------------------------------ MODULE XmlGen ------------------------------
(* Random documents.  The generator's own state is the grammar's: where in     *)
(* the document we are and which elements are open.                            *)
EXTENDS Integers, Sequences, TLC, Gen
LOCAL INSTANCE SequencesExt
Tag == {<<97>>, <<98>>, <<97, 98>>, <<99, 45, 49>>, <<120, 58, 121>>, <<95>>, <<195, 169>>, <<100, 46, 101>>, <<65>>}
Att == {<<105, 100>>, <<97>>, <<98>>, <<110, 58, 120>>, <<95, 49>>, <<120, 45, 49>>, <<65>>}
AttN == Att \cup {<<195, 169>>, <<58, 99>>}
Ent == {<<101>>, <<101, 49>>, <<102, 111, 111>>}
R(S) == RandomElement(S)
W(x) == R({<<>>, <<>>, <<>>, <<32>>, <<10>>, <<32, 9>>, <<13, 10>>})
W1(x) == R({<<32>>, <<32>>, <<10>>, <<32, 32>>, <<13, 10, 9>>})
\* pieces of text
Piece(ents) == R({<<120>>, <<121, 122>>, <<32>>, <<32, 32>>, <<10>>, <<13>>, <<13, 10>>, <<9>>, <<38, 108, 116, 59>>, <<38, 103, 116, 59>>, <<38, 97, 109, 112, 59>>, <<38, 113, 117, 111, 116, 59>>,
               <<38, 97, 112, 111, 115, 59>>, <<38, 35, 54, 53, 59>>, <<38, 35, 120, 52, 49, 59>>, <<38, 35, 50, 51, 51, 59>>, <<38, 35, 120, 50, 48, 65, 67, 59>>, <<38, 35, 120, 49, 102, 54, 48, 48, 59>>,
               <<38, 35, 49, 48, 59>>, <<38, 35, 49, 51, 59>>, <<38, 35, 51, 56, 59>>, <<38, 97, 109, 112, 59, 108, 116, 59>>, <<93>>, <<62>>, <<195, 169>>, <<37>>, <<59>>, <<35>>, <<47>>, <<61>>}
              \cup {<<38>> \o n \o <<59>> : n \in ents})
RECURSIVE Pieces(_, _)
Pieces(n, ents) == IF n = 0 THEN <<>> ELSE Piece(ents) \o Pieces(n - 1, ents)
Txt(ents) == Pieces(R(1..4), ents)
Quoted(v) == IF \E i \in 1..Len(v) : v[i] = 34 THEN <<39>> \o v \o <<39>> ELSE R({<<34>> \o v \o <<34>>, <<39>> \o v \o <<39>>})
\* spaces, quotes and the like, as far as they may stand in a quoted value
Val(ents) == LET v == Pieces(R(0..3), ents) \o R({<<>>, <<>>, <<34>>, <<62>>, <<47>>}) IN v
NoRef == {<<>>, <<120>>, <<32, 60, 97, 62, 32>>, <<38, 120>>, <<93, 93>>, <<93>>, <<13, 10>>, <<13>>, <<38, 97, 109, 112, 59>>, <<60, 33>>, <<195, 169>>, <<37>>, <<10, 32>>}
ComTxt == {<<>>, <<32, 99, 32>>, <<60, 97, 62>>, <<38, 97, 59>>, <<45, 32>>, <<32, 63, 62>>, <<39>>, <<34>>}
PiTxt == {<<>>, <<120>>, <<97, 61, 34, 98, 34>>, <<60, 98, 62>>, <<120, 32, 121>>, <<120, 63, 121>>, <<38, 97, 59>>}
SInit(x) == [at |-> "start", open |-> <<>>, ents |-> {}, has |-> {}, nest |-> FALSE]
Opt(c, q) == IF c THEN q ELSE <<>>
O(op, a) == [op |-> op, a |-> a]
LT == 60
Comment(x) == LET c == R(ComTxt) IN O("comment", <<<<60, 33, 45, 45>> \o c \o <<45, 45, 62>>>>)
PiOp(x) == LET t == R({<<116>>, <<117, 50>>})  d == R(PiTxt) IN O("pi", <<t, d, <<60, 63>> \o t \o (IF d = <<>> THEN <<>> ELSE <<32>> \o d) \o <<63, 62>>>>)
TagOp(t) == O("tag", <<t, <<60>> \o t>>)
AttOp(n, v) == LET q == Quoted(v) IN O("attr", <<n, v, W1(0) \o n \o W(0) \o <<61>> \o W(0) \o q>>)
EntVal == {<<120, 121>>, <<97, 38, 35, 54, 53, 59>>, <<38, 108, 116, 59>>, <<32, 10>>, <<38, 35, 51, 56, 59, 108, 116, 59>>, <<>>, <<62>>, <<116, 38, 97, 109, 112, 59>>}
EntOp(n, v) == O("entity", <<n, v, <<60, 33, 69, 78, 84, 73, 84, 89, 32>> \o n \o <<32, 34>> \o v \o <<34>> \o W(0) \o <<62>> \o W(0)>>)
AttlOp(t, n, c, w, v) == O("attlist", <<t, n, c, w, v, <<60, 33, 65, 84, 84, 76, 73, 83, 84, 32>> \o t \o <<32>> \o n \o <<32>> \o (IF c = 1 THEN <<67, 68, 65, 84, 65>> ELSE R({<<78, 77, 84, 79, 75, 69, 78, 83>>, <<73, 68>>, <<40, 97, 124, 98, 41>>}))
                           \o <<32>> \o (IF w = 1 THEN R({<<>>, <<35, 70, 73, 88, 69, 68, 32>>}) \o <<34>> \o v \o <<34>> ELSE R({<<35, 73, 77, 80, 76, 73, 69, 68>>, <<35, 82, 69, 81, 85, 73, 82, 69, 68>>})) \o W(0) \o <<62>> \o W(0)>>)
Many(o, n) == [i \in 1..n |-> o]
SOps(st) ==
  CASE st.at = "start" ->
        <<O("ws", <<<<>>>>), O("decl", <<<<60, 63, 120, 109, 108, 32, 118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34, 63, 62>>>>),
          O("decl", <<<<60, 63, 120, 109, 108, 32, 118, 101, 114, 115, 105, 111, 110, 61, 39, 49, 46, 48, 39, 32, 115, 116, 97, 110, 100, 97, 108, 111, 110, 101, 61, 39, 121, 101, 115, 39, 63, 62, 10>>>>),
          O("ws", <<<<239, 187, 191>>>>)>>
    [] st.at = "prolog" -> <<Comment(0), PiOp(0), O("ws", <<W1(0)>>), O("dtd", <<<<60, 33, 68, 79, 67, 84, 89, 80, 69, 32, 97, 62>>>>), O("dtd", <<<<60, 33, 68, 79, 67, 84, 89, 80, 69, 32, 97, 32, 91>>>>), O("dtd", <<<<60, 33, 68, 79, 67, 84, 89, 80, 69, 32, 97, 32, 91>>>>), TagOp(R(Tag)), TagOp(R(Tag))>>
    [] st.at = "dtd" -> <<EntOp(R(Ent), R(EntVal)), EntOp(R(Ent), R(EntVal)), AttlOp(R(Tag), R(Att), 1, 1, R({<<120>>, <<32, 97, 32, 32, 98>>, <<38, 108, 116, 59>>, <<>>})), AttlOp(R(Tag), R(Att), 0, 1, R({<<120>>, <<32, 97, 32, 32, 98, 32>>})),
                          AttlOp(R(Tag), R(Att), R(0..1), 0, <<>>), Comment(0), O("comment", <<<<60, 33, 69, 76, 69, 77, 69, 78, 84, 32, 97, 32, 40, 98, 41, 62>>>>), O("dtd", <<<<93, 62>>>>), O("dtd", <<<<93, 32, 62>>>>)>>
                        \o Opt(st.ents # {} /\ Ent \ st.ents # {}, <<EntOp(R(IF Ent \ st.ents = {} THEN Ent ELSE Ent \ st.ents), <<120, 38>> \o R(IF st.ents = {} THEN Ent ELSE st.ents) \o <<59, 121>>)>>)
    [] st.at = "main" -> <<Comment(0), PiOp(0), O("ws", <<W1(0)>>), TagOp(R(Tag)), TagOp(R(Tag)), TagOp(R(Tag))>>
    [] st.at = "tag" -> LET free == AttN \ st.has IN
                        <<O("gt", <<W(0) \o <<62>>>>), O("gt", <<<<62>>>>), O("gt", <<<<62>>>>), O("empty", <<W(0) \o <<47, 62>>>>)>>
                        \o Opt(free # {}, LET n == R(IF free = {} THEN AttN ELSE free) IN <<AttOp(n, Val(st.ents)), AttOp(n, Val(st.ents)), AttOp(n, Val(st.ents))>>)
    [] st.at = "content" -> LET t == Txt(st.ents)  c == R(NoRef) IN
                        <<O("text", <<t>>), O("text", <<t>>), O("cdata", <<c, <<60, 33, 91, 67, 68, 65, 84, 65, 91>> \o c \o <<93, 93, 62>>>>), Comment(0), PiOp(0)>>
                        \o Opt(Len(st.open) < 6, <<TagOp(R(Tag)), TagOp(R(Tag)), TagOp(R(Tag)), TagOp(R(Tag)), TagOp(R({<<114, 100, 102, 58, 66, 97, 103>>, <<114, 100, 102, 58, 83, 101, 113>>}))>>)
                        \o Many(O("close", <<<<60, 47>> \o Last(st.open) \o W(0) \o <<62>>>>), IF Len(st.open) > 1 THEN 3 ELSE 1)
                        \o Opt(R(1..25) = 1, <<O("bad", <<R({<<60, 62>>, <<60, 32>>, <<60, 49, 62>>, <<60, 47, 122, 122, 62>>, <<60, 33, 45, 45, 32, 45, 45, 32, 45, 45, 62>>, <<60, 38>>, <<60, 33, 88, 62>>})>>)>>)
    [] st.at = "end" -> <<Comment(0), PiOp(0), O("ws", <<W1(0)>>), O("ws", <<<<>>>>), O("parse", <<"id a b n:x _1 zz">>), O("parse", <<"id a b n:x _1 zz">>), O("parse", <<"id a b n:x _1 zz">>)>>
                        \o Opt(R(1..8) = 1, <<O("bad", <<R({<<60, 98, 47, 62>>, <<60, 47, 97, 62>>, <<60, 98, 62, 60, 47, 98, 62>>})>>)>>)
    [] st.at = "done" -> <<O("cut", <<R(0..300)>>), O("cut", <<R(0..60)>>)>>
\* an element that is left out does not end before it has begun
SApply(st, o) ==
  CASE st.at = "start" -> [st EXCEPT !.at = "prolog"]
    [] st.at = "prolog" /\ o.op = "dtd" -> [st EXCEPT !.at = IF Last(o.a[1]) = 91 THEN "dtd" ELSE "main"]
    [] st.at = "dtd" /\ o.op = "dtd" -> [st EXCEPT !.at = "main"]
    [] st.at = "dtd" /\ o.op = "entity" -> [st EXCEPT !.ents = @ \cup {o.a[1]}]
    [] o.op = "tag" -> [st EXCEPT !.at = "tag", !.open = Append(@, o.a[1]), !.has = {}]
    [] o.op = "attr" -> [st EXCEPT !.has = @ \cup {o.a[1]}]
    [] o.op = "gt" -> [st EXCEPT !.at = "content"]
    [] o.op \in {"close", "empty"} -> [st EXCEPT !.open = SubSeq(@, 1, Len(@) - 1), !.at = IF Len(st.open) = 1 THEN "end" ELSE "content"]
    [] o.op = "parse" -> [st EXCEPT !.at = "done"]
    [] OTHER -> st
\* emit a document when it has been parsed and cut four times; the rest of the walk is of no interest
Emit3 == (Len(h) > 4 /\ s.at = "done" /\ Len(h) <= Depth /\ h[Len(h) - 4].op = "parse") => PrintT("@@" \o ToJson(h))
=============================================================================
