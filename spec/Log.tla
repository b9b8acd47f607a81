--------------------------------- MODULE Log ---------------------------------
(* The log: which events are written, where, and with what text.  The clock,   *)
(* real and processor, is part of the state.  A log file is rolled over to the *)
(* next generation when it has grown past its limit or was closed.             *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
LOCAL D == INSTANCE Dates
\* "All" is everything but tracing
Kinds == <<[n |-> <<65, 108, 108>>, v |-> 2147483646], [n |-> <<66, 108, 111, 98>>, v |-> 4], [n |-> <<68, 101, 112, 114, 101, 99, 97, 116, 101>>, v |-> 64],
           [n |-> <<67, 111, 110, 102, 105, 103, 117, 114, 101>>, v |-> 32], [n |-> <<69, 120, 99, 101, 112, 116, 105, 111, 110>>, v |-> 128],
           [n |-> <<76, 111, 99, 97, 108, 101>>, v |-> 256], [n |-> <<78, 111, 110, 101>>, v |-> 0], [n |-> <<82, 101, 115, 111, 117, 114, 99, 101>>, v |-> 1024],
           [n |-> <<84, 114, 97, 99, 101>>, v |-> 1], [n |-> <<85, 115, 101, 114>>, v |-> 8192], [n |-> <<87, 97, 114, 110, 105, 110, 103>>, v |-> 4096]>>
Domain(v) == LET k == {i \in 1..Len(Kinds) : Kinds[i].v = v} IN
             IF k = {} THEN <<117, 110, 100, 101, 102, 105, 110, 101, 100>> ELSE Kinds[CHOOSE i \in k : TRUE].n
\* tokens <<negated, which, style>> one after the other; 12 is no kind at all and spoils the lot
RECURSIVE Mask(_, _)
Mask(q, m) == IF q = <<>> THEN m ELSE LET v == Kinds[q[1][2]].v IN Mask(Tail(q), IF q[1][1] = 1 THEN m - (m & v) ELSE m | v)
Parsed(p) == LET q == [i \in 1..(Len(p) \div 3) |-> <<p[3 * i - 2], p[3 * i - 1], p[3 * i]>>] IN IF \E i \in 1..Len(q) : q[i][2] = 12 THEN 0 ELSE Mask(q, 0)
\* outputs: 1 console 2 stdout 3 stderr 4 file 5 none
LogInit(cfg) == [up |-> FALSE, mask |-> 0, outs |-> {}, file |-> <<>>, gens |-> 0, limit |-> 0, fmt |-> <<>>, client |-> <<>>, name |-> <<87, 105, 122, 97, 114, 100>>,
                 now |-> <<0, 0, 0>>, start |-> <<0, 0, 0>>, gen |-> 0, open |-> <<>>, sizes |-> {}, ver |-> <<>>, pid |-> <<>>, tid |-> <<>>, dir |-> FALSE]
Elapsed(st) == st.now[2] - st.start[2]
User(st) == st.now[3] - st.start[3]
Fixed(t) == D!Dec(t \div 100) \o <<46>> \o D!Pad(10 * (t % 100), 3)                    \* hundredths, three places
Clock(t, w) == D!Dec(t \div 6000) \o <<58>> \o D!Pad((t \div 100) % 60, 2) \o <<46>> \o D!Pad(IF w = 3 THEN 10 * (t % 100) ELSE 10000 * (t % 100), w)
Gen(st) == IF st.gens = 0 THEN <<48>> ELSE D!Dec(IF st.gens < 0 THEN st.gen ELSE st.gen % st.gens)
Base(m) == LET at == {i \in 1..Len(m) : m[i] = 47} IN IF at = {} THEN m ELSE SubSeq(m, 1 + (CHOOSE i \in at : \A j \in at : j <= i), Len(m))
\* expansion of a format; ev = <<kind, module, function, line, text>>
RECURSIVE Expand(_, _, _)
Expand(f, st, ev) ==
  IF f = <<>> THEN <<>>
  ELSE IF f[1] = 92 /\ Len(f) > 1 /\ f[2] = 114 THEN <<13>> \o Expand(SubSeq(f, 3, Len(f)), st, ev)
  ELSE IF f[1] = 92 /\ Len(f) > 1 /\ f[2] = 110 THEN <<10>> \o Expand(SubSeq(f, 3, Len(f)), st, ev)
  ELSE IF f[1] # 37 THEN <<f[1]>> \o Expand(Tail(f), st, ev)
  ELSE IF Len(f) = 1 THEN <<>>
  ELSE LET c == f[2] IN
       (CASE c = 99 -> st.client
          [] c = 100 -> Domain(ev[1])
          [] c = 101 -> ev[5]
          [] c = 102 -> ev[3]
          [] c = 103 -> Gen(st)
          [] c = 105 -> st.tid
          [] c = 108 -> D!Dec(ev[4])
          [] c = 109 -> Base(ev[2])
          [] c = 110 -> st.name
          [] c = 112 -> st.pid
          [] c = 114 -> Clock(Elapsed(st), 3)
          [] c = 116 -> D!Stamp(st.now[1], 0)
          [] c = 117 -> Fixed(User(st)) \o <<117>>
          [] c = 118 -> st.ver
          [] c = 37 -> <<37>>
          [] OTHER -> <<37, c>>) \o Expand(SubSeq(f, 3, Len(f)), st, ev)
RECURSIVE FileName(_, _)
FileName(f, st) ==
  IF f = <<>> THEN <<>>
  ELSE IF f[1] # 37 THEN <<f[1]>> \o FileName(Tail(f), st)
  ELSE IF Len(f) = 1 THEN <<>>
  ELSE (CASE f[2] = 99 -> st.client [] f[2] = 103 -> Gen(st) [] f[2] = 110 -> st.name [] f[2] = 112 -> st.pid [] f[2] = 118 -> st.ver
          [] f[2] = 37 -> <<37>> [] OTHER -> <<37, f[2]>>) \o FileName(SubSeq(f, 3, Len(f)), st)
\* <entry>...</entry> with the names of its parts
Elem(n, v) == <<32, 32, 60>> \o n \o <<62>> \o v \o <<60, 47>> \o n \o <<62, 10>>
Xml(st, ev) ==
  <<60, 101, 110, 116, 114, 121, 62, 10>> \o Elem(<<116, 105, 109, 101, 115, 116, 97, 109, 112>>, D!Stamp(st.now[1], 0))
  \o Elem(<<101, 108, 97, 112, 115, 101, 100, 45, 116, 105, 109, 101>>, Clock(Elapsed(st), 6)) \o Elem(<<117, 115, 101, 114, 45, 116, 105, 109, 101>>, Fixed(User(st)))
  \o Elem(<<112, 114, 111, 99, 101, 115, 115, 45, 105, 100>>, st.pid) \o Elem(<<116, 104, 114, 101, 97, 100, 45, 105, 100>>, st.tid)
  \o Elem(<<109, 111, 100, 117, 108, 101>>, ev[2]) \o Elem(<<102, 117, 110, 99, 116, 105, 111, 110>>, ev[3]) \o Elem(<<108, 105, 110, 101>>, D!Dec(ev[4]))
  \o Elem(<<100, 111, 109, 97, 105, 110>>, Domain(ev[1])) \o Elem(<<101, 118, 101, 110, 116>>, ev[5]) \o <<60, 47, 101, 110, 116, 114, 121, 62>>
IsXml(f) == Len(f) = 3 /\ f[1] \in {88, 120} /\ f[2] \in {77, 109} /\ f[3] \in {76, 108}
Text(st, ev) == IF IsXml(st.fmt) THEN Xml(st, ev) ELSE Expand(st.fmt, st, ev)
Head0 == <<60, 63, 120, 109, 108, 32, 118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34, 32, 101, 110, 99, 111, 100, 105, 110, 103, 61, 34, 85, 84, 70, 45, 56, 34, 32,
           115, 116, 97, 110, 100, 97, 108, 111, 110, 101, 61, 34, 121, 101, 115, 34, 63, 62, 10>>
LogOn == <<60, 108, 111, 103, 62, 10>>
LogOff == <<60, 47, 108, 111, 103, 62, 10>>
Event(t) == <<32, 32, 60, 101, 118, 101, 110, 116, 62>> \o t \o <<60, 47, 101, 118, 101, 110, 116, 62, 10>>
Known(st) == {x[1] : x \in st.sizes}
SizeOf(st, f) == IF f \in Known(st) THEN (CHOOSE x \in st.sizes : x[1] = f)[2] ELSE 0
Put(sz, f, n) == {x \in sz : x[1] # f} \cup {<<f, n>>}
Wanted(st, v) == st.mask # 0 /\ (st.mask & v) # 0
ToFile(st) == 4 \in st.outs
\* names in a directory that may not be there
CanOpen(st) == Len(st.file) < 3 \/ SubSeq(st.file, 1, 3) # <<110, 111, 47>> \/ st.dir
\* writing one event to the file: <<names and bytes added, new state>>
Write(st, t) ==
  LET over == st.open # <<>> /\ st.limit >= 0 /\ SizeOf(st, st.open) > 1048576 * st.limit
      stay == st.open # <<>> /\ ~over
      f == IF stay THEN st.open ELSE FileName(st.file, st)
      body == (IF stay THEN <<>> ELSE (IF f \in Known(st) THEN <<>> ELSE Head0) \o LogOn) \o Event(t)
      off == IF over THEN LogOff ELSE <<>>
      add == IF over /\ f # st.open THEN {<<st.open, off>>, <<f, body>>} ELSE {<<f, off \o body>>}
      sz1 == IF over THEN Put(st.sizes, st.open, SizeOf(st, st.open) + 7) ELSE st.sizes
      sz2 == Put(sz1, f, (IF \E x \in sz1 : x[1] = f THEN (CHOOSE x \in sz1 : x[1] = f)[2] ELSE 0) + Len(body)) IN
  <<add, [st EXCEPT !.open = f, !.gen = IF stay THEN @ ELSE @ + 1, !.sizes = sz2]>>
Line(t) == t \o <<10>>
Err(st, t) == (IF 1 \in st.outs THEN Line(t) ELSE <<>>) \o (IF 3 \in st.outs THEN Line(t) ELSE <<>>)
RECURSIVE Times(_, _)
Times(q, n) == IF n = 0 THEN <<>> ELSE q \o Times(q, n - 1)
\* an error report is an event of its own severity
Ev(e) == LET a == e.a IN <<IF e.op = "throw" THEN (IF a[1] >= 400 THEN 128 ELSE 4096) ELSE a[1], a[2], a[3], a[4], Times(a[5], a[6])>>
Apply1(st, e) ==
  LET a == e.a IN
  CASE e.op = "conf" -> [st EXCEPT !.mask = Parsed(a[1]), !.outs = {a[2][i] : i \in 1..Len(a[2])}, !.file = a[3], !.gens = a[4], !.limit = a[5], !.fmt = a[6]]
    [] e.op = "up" -> [st EXCEPT !.up = TRUE, !.client = a[1], !.start = st.now,
                       !.ver = IF "r" \in DOMAIN e THEN e.r[1] ELSE <<49>>, !.pid = IF "r" \in DOMAIN e THEN e.r[2] ELSE <<49>>, !.tid = IF "r" \in DOMAIN e THEN e.r[3] ELSE <<49>>]
    [] e.op = "clock" -> [st EXCEPT !.now = <<@[1] + a[1], @[2] + a[2], @[3] + a[3]>>]
    [] e.op = "mask" -> [st EXCEPT !.mask = Parsed(a[1])]
    [] e.op = "format" -> [st EXCEPT !.fmt = a[1]]
    [] e.op = "client" -> [st EXCEPT !.client = a[1]]
    [] e.op = "name" -> [st EXCEPT !.name = IF a[1] = <<>> THEN @ ELSE a[1]]
    [] e.op = "close" -> IF st.mask # 0 /\ st.open # <<>> THEN [st EXCEPT !.sizes = Put(@, st.open, SizeOf(st, st.open) + 7), !.open = <<>>] ELSE st
    [] e.op = "grow" -> IF st.open # <<>> THEN [st EXCEPT !.sizes = Put(@, st.open, SizeOf(st, st.open) + 1048576 * a[1])] ELSE st
    [] e.op \in {"event", "throw"} -> IF Wanted(st, Ev(e)[1]) /\ ToFile(st) /\ CanOpen(st) THEN Write(st, Text(st, Ev(e)))[2] ELSE st
    [] e.op = "mkdir" -> [st EXCEPT !.dir = TRUE]
    [] OTHER -> st
Pairs(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
LogStep(st, e) ==
  LET a == e.a  nx == Apply1(st, e)
      is(v) == [ok |-> e.r = v, s |-> nx, want |-> v]
      files(q, w) == Pairs(q) = w /\ Len(q) = Cardinality(w) IN
  CASE e.op = "mask" -> is(<<Parsed(a[1]), IF Parsed(a[1]) # 0 THEN 1 ELSE 0>>)
    [] e.op \in {"event", "throw"} ->
         IF ~Wanted(st, Ev(e)[1]) THEN is(<<IF st.mask = 0 THEN 0 ELSE 1, <<>>, <<>>, <<>>>>)
         ELSE LET t == Text(st, Ev(e))  fail == ToFile(st) /\ ~CanOpen(st)  ret == IF fail THEN 0 ELSE 1  w == IF ToFile(st) /\ ~fail THEN Write(st, t)[1] ELSE {}
                  out == IF 2 \in st.outs THEN Line(t) ELSE <<>>  err == Err(st, t) IN
              [ok |-> e.r[1] = ret /\ e.r[2] = out /\ e.r[3] = err /\ files(e.r[4], w), s |-> nx, want |-> <<ret, out, err, w>>]
    [] e.op = "close" -> LET w == IF st.mask # 0 /\ st.open # <<>> THEN {<<st.open, LogOff>>} ELSE {} IN
                         [ok |-> files(e.r, w), s |-> nx, want |-> w]
    \* many at once: everything comes out whole and once
    [] e.op = "race" -> is(1)
    \* the settings as listed: outputs by name, generations, limit, format
    [] e.op = "list" -> is(<<TRUE, [i \in 1..4 |-> IF i \in st.outs THEN 1 ELSE 0], st.file, st.gens, st.limit, st.fmt>>)
    [] e.op = "grow" -> is(IF st.open # <<>> THEN 1 ELSE 0)
    [] e.op = "name" -> is(nx.name)
    [] e.op = "up" -> [ok |-> Len(e.r) = 3, s |-> nx, want |-> "started"]
    [] OTHER -> is(1)
=============================================================================
