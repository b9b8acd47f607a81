------------------------------- MODULE Option -------------------------------
(* Option tables: names, what they parse to and print as.  The numbers behind   *)
(* the names are the implementation's business: the first event of a trace      *)
(* reports them (one per entry of the tables below) and fixes them for the      *)
(* rest.  Names are compared without regard to case; if a name is not found,    *)
(* it is looked up again without the hyphens and underscores after its first    *)
(* character.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise
Tables == [
  authenticate |-> <<"Undefined", "Public", "Secret">>,
  cipher |-> <<"Undefined", "AES", "Chacha", "None", "Serpent", "Twofish">>,
  datatype |-> <<"Undefined", "Byte", "Long", "Short", "String">>,
  endian |-> <<"Undefined", "LSB", "MSB">>,
  entropy |-> <<"Undefined", "None", "BZip", "LZMA", "Zip">>,
  entropylevel |-> <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>,
  keylength |-> <<"256", "512", "1024", "2048">>,
  hash |-> <<"Undefined", "CRC64", "MD5", "None", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA2",
             "SHA2-224", "SHA2-256", "SHA2-384", "SHA2-512", "SHA3", "SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512">>,
  list |-> <<"Authenticate", "Cipher", "Command", "DataType", "Debug", "Endian", "Entropy", "EntropyLevel", "Hash",
             "KeyLength", "List", "Mode">>,
  logevent |-> <<"All", "Blob", "Deprecate", "Configure", "Exception", "Locale", "None", "Resource", "Trace", "User", "Warning">>,
  debug |-> <<"All", "Blob", "Deprecate", "Configure", "Exception", "Locale", "None", "Resource", "Trace", "User", "Warning">>,
  mode |-> <<"Undefined", "CBC", "CFB", "CTR", "ECB", "OFB">>,
  resource |-> <<"Undefined", "Area", "Disk", "File", "Map", "Memory">>,
  command |-> <<"+authenticate", "-authenticate", "+chunksize", "-chunksize", "+decipher", "-decipher", "+debug", "-debug",
                "+entropy", "-entropy", "+hash", "-hash", "+help", "-help", "+key", "-key", "+key-length", "-key-length",
                "+mac", "-mac", "+level", "-level", "+list", "-list", "+log", "-log", "+mode", "-mode", "+properties",
                "-properties", "+random", "-random", "+verbose", "-verbose", "+version", "-version">>]
TableNames == DOMAIN Tables
\* names that must denote the same value
Synonyms == {<<"hash", "SHA224", "SHA2-224">>, <<"hash", "SHA256", "SHA2-256">>, <<"hash", "SHA384", "SHA2-384">>,
             <<"hash", "SHA512", "SHA2-512">>}

(* texts as sequences of one-character strings *)
Chars(x) == [k \in 1..Len(x) |-> SubSeq(x, k, k)]
LOCAL Lows == Chars("abcdefghijklmnopqrstuvwxyz")
LOCAL Ups == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOCAL LowOf == [ch \in {Ups[k] : k \in 1..26} |-> Lows[CHOOSE k \in 1..26 : Ups[k] = ch]]
LOCAL UpOf == [ch \in {Lows[k] : k \in 1..26} |-> Ups[CHOOSE k \in 1..26 : Lows[k] = ch]]
Fold(q) == [k \in 1..Len(q) |-> IF q[k] \in DOMAIN LowOf THEN LowOf[q[k]] ELSE q[k]]
Raise(q) == [k \in 1..Len(q) |-> IF q[k] \in DOMAIN UpOf THEN UpOf[q[k]] ELSE q[k]]
Folded == [t \in TableNames |-> [k \in 1..Len(Tables[t]) |-> Fold(Chars(Tables[t][k]))]]
Squeeze(q) == IF q = <<>> THEN q ELSE <<q[1]>> \o SelectSeq(Tail(q), LAMBDA ch : ch \notin {"-", "_"})
Find(t, q) == LET D == {k \in 1..Len(Folded[t]) : Folded[t][k] = q} IN
              IF D = {} THEN 0 ELSE CHOOSE k \in D : \A m \in D : k <= m
Index(t, q) == LET d == Find(t, Fold(q)) IN IF d # 0 THEN d ELSE Find(t, Fold(Squeeze(q)))

(* a text: members separated by commas; blanks before a member, a sign in front *)
(* of it (except for commands, where it belongs to the name), an exclamation    *)
(* mark that negates it                                                         *)
RECURSIVE Skip(_, _), Upto(_)
Skip(q, S) == IF q # <<>> /\ q[1] \in S THEN Skip(Tail(q), S) ELSE q
Upto(q) == IF q = <<>> \/ q[1] \in {",", " "} THEN <<>> ELSE <<q[1]>> \o Upto(Tail(q))
RECURSIVE AfterComma(_)
AfterComma(q) == IF q = <<>> THEN <<>> ELSE IF q[1] = "," THEN <<q>> ELSE AfterComma(Tail(q))
RECURSIVE Members(_, _)
Members(t, q0) ==
  LET q1 == Skip(q0, {",", " "})
      q2 == IF t # "command" /\ q1 # <<>> /\ q1[1] \in {"-", "+"} THEN Tail(q1) ELSE q1
      neg == q2 # <<>> /\ q2[1] = "!"
      q3 == IF neg THEN Tail(q2) ELSE q2
      m == Upto(q3)
      rest == AfterComma(SubSeq(q3, Len(m) + 1, Len(q3)))
  IN <<[i |-> Index(t, m), neg |-> neg]>> \o (IF rest = <<>> THEN <<>> ELSE Members(t, rest[1]))

\* s: table -> sequence of values
Value(s, t, islist, text) ==
  LET all == Members(t, Chars(text))
      ms == IF islist = 1 THEN all ELSE SubSeq(all, 1, 1)
      f[k \in 0..Len(ms)] ==
        IF k = 0 THEN 0
        ELSE IF f[k - 1] = -1 \/ ms[k].i = 0 THEN -1
        ELSE LET v == s[t][ms[k].i] IN
             IF ms[k].neg THEN f[k - 1] - (f[k - 1] & v) ELSE f[k - 1] | v
  IN f[Len(ms)]
OptionInit(cfg) == [t \in {} |-> <<>>]
ValueOf(s, t, n) == s[t][Find(t, Fold(Chars(n)))]
OptionStep(s, e) ==
  CASE e.op = "consts" ->   \* values of the symbolic constants, in table order
         LET v == [t \in TableNames |-> e.r[t]] IN
         [ok |-> /\ \A t \in TableNames : Len(v[t]) = Len(Tables[t])
                 /\ \A y \in Synonyms : ValueOf(v, y[1], y[2]) = ValueOf(v, y[1], y[3]),
          s |-> v, want |-> <<"values">>]
    [] e.op = "names" -> [ok |-> {Tables[e.a[1]][k] : k \in 1..Len(Tables[e.a[1]])} \subseteq {e.r[k] : k \in 1..Len(e.r)},
                          s |-> s, want |-> Tables[e.a[1]]]
    [] e.op = "parse" ->    \* a = <<table, list?, text>>
         LET w == Value(s, e.a[1], e.a[2], e.a[3]) IN [ok |-> e.r = w, s |-> s, want |-> w]
    [] e.op = "print" ->    \* a = <<table, index>>: a name that has the value
         [ok |-> /\ e.r \in {Tables[e.a[1]][k] : k \in 1..Len(Tables[e.a[1]])}
                 /\ ValueOf(s, e.a[1], e.r) = s[e.a[1]][e.a[2]],
          s |-> s, want |-> <<"a name for", s[e.a[1]][e.a[2]]>>]
    [] e.op = "isoption" -> LET q == Chars(e.a[1])
                                w == IF Len(q) > 1 /\ q[1] \in {"-", "+"} /\ Fold(<<q[2]>>)[1] \in {Lows[k] : k \in 1..26} THEN 1 ELSE 0
                            IN [ok |-> e.r = w, s |-> s, want |-> w]
=============================================================================
