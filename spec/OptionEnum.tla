----------------------------- MODULE OptionEnum -----------------------------
EXTENDS Option, Enum
CONSTANTS Kind
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE q[1] \o Join(Tail(q))
\* ways to write a name
Cut(q) == (Len(q) + 1) \div 2
RECURSIVE Spread(_, _)
Spread(q, w) == IF Len(q) < 2 THEN q ELSE <<q[1]>> \o w \o Spread(Tail(q), w)
Ways(n) == LET q == Chars(n) IN
  {n, Join(Fold(q)), Join(Raise(q)),
   Join(SubSeq(q, 1, Cut(q)) \o <<"-">> \o SubSeq(q, Cut(q) + 1, Len(q))),
   Join(SubSeq(q, 1, Cut(q)) \o <<"_">> \o SubSeq(q, Cut(q) + 1, Len(q))),
   Join(Spread(q, <<"-">>)), Join(Spread(q, <<"_">>)), Join(Spread(q, <<"_", "-">>)), Join(Spread(q, <<"-", "_", "_">>)),
   "-" \o n, "+" \o n, " " \o n, n \o "-", n \o "x", Join(SubSeq(q, 1, Len(q) - 1)), "x" \o n}
Names(t) == {Tables[t][k] : k \in 1..Len(Tables[t])}
Few == {"cipher", "hash", "logevent", "mode", "list"}
Sep == {",", ", ", ",,", ",-", ",!", ",+!", ",-!"}
OptionCases(x) ==
  CASE Kind = "names" -> {[op |-> "names", a |-> <<t>>] : t \in TableNames}
    [] Kind = "one" -> UNION {UNION {{[op |-> "parse", a |-> <<t, l, w>>] : w \in Ways(n), l \in 0..1} : n \in Names(t)} : t \in TableNames}
    [] Kind = "print" -> UNION {{[op |-> "print", a |-> <<t, k>>] : k \in 1..Len(Tables[t])} : t \in TableNames}
    [] Kind = "two" -> UNION {{[op |-> "parse", a |-> <<t, l, m \o y \o n>>] : m \in Names(t), y \in Sep, n \in Names(t) \cup {"bogus", ""}, l \in 0..1} : t \in Few}
    [] Kind = "three" -> {[op |-> "parse", a |-> <<"logevent", 1, x1 \o y \o x2 \o z \o x3>>] :
                             x1 \in {"All", "Blob", "!User"}, x2 \in Names("logevent"), x3 \in {"Trace", "Blob", "All"}, y \in {",", ",!"}, z \in {",", ",!"}}
    [] Kind = "spelled" -> UNION {{[op |-> "parse", a |-> <<"logevent", 1, m \o y \o w>>] : w \in Ways(n), m \in {"All", "Blob," \o n}, y \in {",", ",!", ",-!"}} : n \in Names("logevent")}
    [] Kind = "isoption" -> {[op |-> "isoption", a |-> <<o>>] : o \in {"-a", "+b", "-", "+", "a", "--a", "-1", "+-", "-Z", "-key", "x-", "-?"}}
=============================================================================
