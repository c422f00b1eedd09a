--------------------------------- MODULE Cli ---------------------------------
(* The command line: which words are a request, and what each request does.      *)
EXTENDS Text

Commands == {"configuration", "demonstrate", "install", "tree", "validate"}
\* options of each command: short and long name, whether a value follows
Opt(s, l, v) == [short |-> s, long |-> l, takes |-> v]
Options == [ configuration |-> { Opt("-h", "--help", FALSE) },
             demonstrate   |-> { Opt("-h", "--help", FALSE) },
             install       |-> { Opt("-h", "--help", FALSE), Opt("-u", "--update", FALSE) },
             tree          |-> { Opt("-h", "--help", FALSE), Opt("-a", "", FALSE), Opt("-m", "--max_array_items", TRUE) },
             validate      |-> { Opt("-h", "--help", FALSE), Opt("-f", "--file_set_name", TRUE), Opt("", "--report", TRUE) } ]
TopOptions == { Opt("-h", "--help", FALSE), Opt("-v", "--version", FALSE) }
MinNames == [ configuration |-> 0, demonstrate |-> 0, install |-> 0, tree |-> 1, validate |-> 1 ]
MaxNames == [ configuration |-> 0, demonstrate |-> 0, install |-> 99, tree |-> 1, validate |-> 1 ]
Key(o) == IF o.long = "" THEN o.short ELSE o.long
Statuses == {"OK", "NOTE", "WARN", "ERROR", "TODO", "UNUSED", "COMMENT", "OPTIONAL"}

(* ------------------------------------------------------ the first word *)
\* a command may be shortened, to two characters or more that fit no other one
Fits(w) == IF w \in Commands THEN {w} ELSE IF Len(w) < 2 THEN {} ELSE { c \in Commands : StartsWith(c, w) }

(* ----------------------------------------------------------- its words *)
Decimal(w) == Len(w) > 0 /\ AllIn(w, 1, Digits)
\* a number, as far as it may be written as value
Integer(w) == Decimal(w) \/ (Len(w) > 1 /\ Ch(w, 1) \in {"-", "+"} /\ AllIn(w, 2, Digits))
OptionLike(w) == Len(w) > 1 /\ Ch(w, 1) = "-" /\ ~(Ch(w, 2) \in Digits /\ AllIn(w, 2, Digits))
LongName(w) == Split(w, "=")[1]
LongMatches(os, w) ==
  LET n == LongName(w)
      exact == { o \in os : o.long = n }
  IN IF exact # {} THEN exact ELSE { o \in os : o.long # "" /\ StartsWith(o.long, n) }
After(w, i) == SubSeq(w, i, Len(w))

\* p: what was read so far: [end, names, opts (pairs), unknown]
Fresh == [end |-> "", names |-> <<>>, opts |-> <<>>, unknown |-> FALSE]
Stop(p, how) == [p EXCEPT !.end = how]
Value_(p, o, v) ==
  IF Key(o) = "--max_array_items" /\ ~Integer(v) THEN Stop(p, "refused")
  ELSE [p EXCEPT !.opts = Append(@, <<Key(o), v>>)]
Flag(p, o) == IF o.long = "--help" THEN Stop(p, "help") ELSE IF o.long = "--version" THEN Stop(p, "version")
              ELSE [p EXCEPT !.opts = Append(@, <<Key(o), "">>)]
\* several short options may be joined, the last one with its value
RECURSIVE Short(_, _, _)
Short(os, p, w) ==
  LET m == { o \in os : o.short = SubSeq(w, 1, 2) }
      o == CHOOSE o \in m : TRUE
  IN IF m = {} THEN [p EXCEPT !.unknown = TRUE]
     ELSE IF Len(w) = 2 THEN Flag(p, o)
     ELSE IF o.takes THEN Value_(p, o, IF Ch(w, 3) = "=" THEN After(w, 4) ELSE After(w, 3))
     ELSE LET q == Flag(p, o)
          IN IF \E x \in os : x.short = "-" \o Ch(w, 3)
             THEN IF q.end # "" THEN q ELSE Short(os, q, "-" \o After(w, 3)) ELSE Stop(p, "refused")
RECURSIVE Read(_, _, _)
Read(os, p, ws) ==
  IF ws = <<>> \/ p.end # "" THEN p
  ELSE LET w == ws[1]
           long == StartsWith(w, "--")
           m == IF long THEN LongMatches(os, w) ELSE { o \in os : o.short # "" /\ o.short = w }
           o == CHOOSE o \in m : TRUE
           inline == long /\ HasText(w, "=")
       IN IF ~OptionLike(w) THEN Read(os, [p EXCEPT !.names = Append(@, w)], Tail(ws))
          ELSE IF Cardinality(m) > 1 THEN Stop(p, "refused")
          ELSE IF long /\ m = {} THEN Read(os, [p EXCEPT !.unknown = TRUE], Tail(ws))
          ELSE IF ~long /\ m = {} THEN Read(os, Short(os, p, w), Tail(ws))
          ELSE IF ~o.takes THEN IF inline THEN Stop(p, "refused") ELSE Read(os, Flag(p, o), Tail(ws))
          ELSE IF inline THEN Read(os, Value_(p, o, After(w, Len(LongName(w)) + 2)), Tail(ws))
          ELSE IF Len(ws) < 2 \/ OptionLike(ws[2]) THEN Stop(p, "refused")
          ELSE Read(os, Value_(p, o, ws[2]), Tail(Tail(ws)))

LastValue(p, key, else) ==
  LET q == SelectSeq(p.opts, LAMBDA x : x[1] = key) IN IF Len(q) = 0 THEN else ELSE q[Len(q)][2]
Given(p, key) == \E i \in DOMAIN p.opts : p.opts[i][1] = key

Nothing_ == [how |-> "", cmd |-> "", names |-> <<>>, max |-> "5", attrs |-> TRUE, set |-> "", report |-> "", update |-> FALSE]
\* the request that a command line is; set "" is the default one, report "" all statuses
Request(argv) ==
  IF argv = <<>> THEN [Nothing_ EXCEPT !.how = "none"]
  ELSE IF OptionLike(argv[1]) \/ argv[1] = "-"
  THEN LET p == Read(TopOptions, Fresh, argv)
       IN [Nothing_ EXCEPT !.how = IF p.end \in {"help", "version"} /\ p.names = <<>> THEN p.end ELSE "refused"]
  ELSE LET f == Fits(argv[1])
           cmd == CHOOSE c \in f : TRUE
           p == Read(Options[cmd], Fresh, Tail(argv))
       IN IF Cardinality(f) # 1 THEN [Nothing_ EXCEPT !.how = "refused"]
          ELSE IF p.end # "" THEN [Nothing_ EXCEPT !.how = p.end, !.cmd = cmd]
          ELSE IF p.unknown \/ Len(p.names) < MinNames[cmd] \/ Len(p.names) > MaxNames[cmd]
          THEN [Nothing_ EXCEPT !.how = "refused", !.cmd = cmd]
          ELSE [how |-> "run", cmd |-> cmd,
                names |-> IF cmd = "install" /\ p.names = <<>> THEN <<"main">> ELSE p.names,
                max |-> LastValue(p, "--max_array_items", "5"), attrs |-> ~Given(p, "-a"),
                set |-> LastValue(p, "--file_set_name", ""), report |-> LastValue(p, "--report", ""),
                update |-> Given(p, "--update")]

(* ------------------------------------------------- what a request does *)
\* statuses which are asked for
UpperOf == [ c \in Lower |-> <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>[
             CHOOSE i \in 1..26 : <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>[i] = c ] ]
RECURSIVE UpperCase(_)
UpperCase(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in Lower THEN UpperOf[Ch(s, 1)] ELSE Ch(s, 1)) \o UpperCase(After(s, 2))
Asked(q, given) == IF ~given THEN Statuses ELSE { UpperCase(x) : x \in SeqRange(Split(q.report, ",")) }
IsNxdl(f) == EndsWith(f, ".nxdl.xml")
===============================================================================
