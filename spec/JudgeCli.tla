------------------------------ MODULE JudgeCli ------------------------------
(* Conformance: command lines that were given to the real program.               *)
EXTENDS Cli, Json, IOUtils, TLC, SequencesExt
Input == JsonDeserialize(IOEnv.CASES)
Cases == Input.cases
\* the world: files (name -> kind), sets (and those whose schema does not fit), and what the functions of the package give (key -> result)
World == Input.world
VARIABLE ci

clause(n, ok, more) == IF ok THEN {} ELSE { [clause |-> n, more |-> more] }
SetNames == { s.n : s \in SeqRange(World.sets) }
KindOf(f) == IF f \in DOMAIN World.files THEN World.files[f] ELSE "missing"
NewestDate == CHOOSE d \in { s.rank : s \in SeqRange(World.sets) } : \A s \in SeqRange(World.sets) : s.rank <= d
Default == (CHOOSE s \in SeqRange(World.sets) : s.rank = NewestDate).n
RECURSIVE Canonical(_)
\* an integer in its shortest form
Canonical(w) == IF Ch(w, 1) = "+" THEN Canonical(After(w, 2))
                ELSE IF Ch(w, 1) = "-" THEN LET c == Canonical(After(w, 2)) IN IF c = "0" THEN "0" ELSE "-" \o c
                ELSE IF Len(w) > 1 /\ Ch(w, 1) = "0" THEN Canonical(After(w, 2)) ELSE w
Bool(b) == IF b THEN "T" ELSE "F"

\* nothing was done
Idle(o) == o.urls = <<>> /\ o.came = <<>> /\ o.removed = <<>> /\ ~o.stray
Silent(o) == o.report = <<>> /\ o.tree = <<>> /\ o.caches = <<>> /\ o.says = <<>>

CountOf(q, x) == Len(SelectSeq(q, LAMBDA y : y = x))
RowsAgree(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A x \in SeqRange(want) : CountOf(want, x) = CountOf(got, x)
RowTexts(q) == [ i \in DOMAIN q |-> q[i].t ]
ReportAgrees(o, file, set, asked) ==
  LET ref == World.refs[file \o "|" \o set]
      want == RowTexts(SelectSeq(ref, LAMBDA r : r.s \in asked))
      g == o.report[1]
  IN /\ Len(o.report) = 1
     /\ g.file = file /\ g.ref = set /\ g.version = set /\ g.summary
     /\ RowsAgree(want, g.rows)
     /\ { x.s : x \in SeqRange(g.counts) } = Statuses
     /\ \A x \in SeqRange(g.counts) : x.n = Len(SelectSeq(ref, LAMBDA r : r.s = x.s))
TreeAgrees(o, file, max, attrs) ==
  o.tree = << World.refs[file \o "|" \o (IF IsNxdl(file) THEN "" ELSE Canonical(max)) \o "|" \o Bool(attrs)] >>
Refused(o, code) == o.code = code /\ Silent(o) /\ Idle(o) /\ ~o.trace

RowsOfSets(rows, sets) ==
  /\ Len(rows) = Len(sets)
  /\ \A s \in SeqRange(sets) : \E r \in SeqRange(rows) : r.n = s.n /\ r.c = s.c /\ r.date = s.date /\ r.sha = s.sha /\ r.path = s.path

(* ------------------------------------------------------------ each command *)
BadTree(q, o) ==
  LET f == q.names[1]
      k == KindOf(f)
  IN IF k \in {"h5", "nxdl", "nxdl invalid"} /\ (IsNxdl(f) <=> k # "h5")
     THEN clause("tree", o.code = 0 /\ TreeAgrees(o, f, q.max, q.attrs) /\ o.report = <<>>, [want |-> q, got |-> o])
     ELSE clause("tree refused", Refused(o, 1), [want |-> q, kind |-> k, got |-> o])

BadValidate(q, given, o) ==
  LET f == q.names[1]
      k == KindOf(f)
      s == IF q.set = "" THEN Default ELSE q.set
      asked == Asked(q, given)
  IN IF s \notin SetNames THEN clause("unknown file set refused", Refused(o, 1), [want |-> q, got |-> o])
     ELSE IF IsNxdl(f)
     THEN IF k = "nxdl" /\ s \notin SeqRange(World.other) THEN clause("valid NXDL", o.code = 0 /\ o.says = <<f>>, o) ELSE clause("NXDL refused", Refused(o, 1), [kind |-> k, got |-> o])
     ELSE IF ~(asked \subseteq Statuses) \/ k # "h5" THEN clause("validation refused", Refused(o, 1), [want |-> q, kind |-> k, got |-> o])
     ELSE clause("report", o.code = 0 /\ ReportAgrees(o, f, s, asked) /\ o.tree = <<>>, [want |-> q, asked |-> asked, got |-> o])

BadConfiguration(o) ==
  clause("configuration", /\ o.code = 0 /\ Len(o.caches) = 1
                          /\ RowsOfSets(o.caches[1].rows, World.sets) /\ o.caches[1].default = Default, o)

BadDemonstrate(o) ==
  LET f == World.demo
  IN clause("demonstrate", o.code = 0 /\ ReportAgrees(o, f, Default, Statuses) /\ TreeAgrees(o, f, "5", TRUE), o)

\* names are installed one after the other, until one can not be had
\* a request that gets no answer is repeated, up to three times in all
Requests(n) == IF n \in {"late", "offline"} THEN <<n, n, n>> ELSE <<n>>
RECURSIVE Downloads(_, _, _)
Downloads(names, have, update) ==
  IF names = <<>> THEN [urls |-> <<>>, have |-> have, fails |-> FALSE]
  ELSE LET n == names[1] IN
       IF n \in have /\ ~update THEN Downloads(Tail(names), have, update)
       ELSE IF n \notin { x.n : x \in SeqRange(World.down) } THEN [urls |-> Requests(n), have |-> have, fails |-> TRUE]
       ELSE LET r == Downloads(Tail(names), have \cup {n}, update) IN [r EXCEPT !.urls = Requests(n) \o @]
UserSets == { s.n : s \in { s \in SeqRange(World.sets) : s.c = "user" } }
\* what is there afterwards: the sets that came are younger than all others, the last of World.down is the youngest
SetsAfter(came) ==
  LET Fresh_(s) == [n |-> s.n, c |-> "user", date |-> s.date]
      Old(s) == [n |-> s.n, c |-> s.c, date |-> s.date]
  IN { Fresh_(s) : s \in { s \in SeqRange(World.down) : s.n \in came } }
     \cup { Old(s) : s \in { s \in SeqRange(World.sets) : s.n \notin came } }
DefaultAfter(came) ==
  IF came = {} THEN Default
  ELSE World.down[CHOOSE i \in DOMAIN World.down : World.down[i].n \in came /\ \A j \in DOMAIN World.down : World.down[j].n \in came => j <= i].n
BadInstall(q, o) ==
  LET d == Downloads(q.names, UserSets, q.update)
      replaced == SeqRange(d.urls) \cap UserSets
  IN clause("downloads", IF d.fails THEN Len(o.urls) >= Len(d.urls) /\ SubSeq(o.urls, 1, Len(d.urls)) = d.urls ELSE o.urls = d.urls, [want |-> d, got |-> o])
     \cup (IF d.fails THEN clause("failure is told", o.code # 0, o)
           ELSE clause("installed", /\ o.code = 0 /\ SeqRange(o.came) = d.have \ UserSets /\ o.removed = <<>>
                                    /\ UserSets \ replaced \subseteq SeqRange(o.kept) /\ replaced \cap SeqRange(o.kept) = {}
                                    /\ Len(o.caches) = 1 /\ Len(o.caches[1].rows) = Cardinality(SetsAfter(SeqRange(d.urls)))
                                    /\ { [n |-> r.n, c |-> r.c, date |-> r.date] : r \in SeqRange(o.caches[1].rows) } = SetsAfter(SeqRange(d.urls))
                                    /\ \A r \in SeqRange(o.caches[1].rows) : EndsWith(r.path, (IF r.c = "user" THEN "/punx/" ELSE "/punx/cache/") \o r.n)
                                    /\ o.caches[1].default = DefaultAfter(SeqRange(d.urls)), [want |-> d, got |-> o]))
     \cup clause("no other files", ~o.stray, o)

GivesReport(argv) == Given(Read(Options[CHOOSE c \in Fits(argv[1]) : TRUE], Fresh, Tail(argv)), "--report")
Bad(c) ==
  LET q == Request(c.argv)
      o == c.obs
  IN CASE q.how = "none"    -> clause("no command", o.code = 1 /\ o.must /\ Silent(o) /\ Idle(o) /\ ~o.trace, o)
       [] q.how = "help"    -> clause("help", o.code = 0 /\ o.usage /\ o.usagecmd = q.cmd /\ Silent(o) /\ Idle(o), [want |-> q, got |-> o])
       [] q.how = "version" -> clause("version", o.code = 0 /\ o.version /\ Silent(o) /\ Idle(o), o)
       [] q.how = "refused" -> clause("refused", Refused(o, 2), [want |-> q, got |-> o])
       [] q.how = "run"     ->
            (CASE q.cmd = "tree" -> BadTree(q, o) [] q.cmd = "validate" -> BadValidate(q, GivesReport(c.argv), o)
               [] q.cmd = "configuration" -> BadConfiguration(o) [] q.cmd = "demonstrate" -> BadDemonstrate(o)
               [] q.cmd = "install" -> BadInstall(q, o))
            \cup (IF q.cmd = "install" THEN {} ELSE clause("nothing changed", Idle(o) /\ SeqRange(o.kept) = UserSets, o))

JInit == ci = 0
JNext == /\ ci < Len(Cases) /\ ci' = ci + 1
         /\ LET c == Cases[ci'] IN PrintT("@@" \o ToJson([id |-> c.id, cmd |-> Request(c.argv).cmd, how |-> Request(c.argv).how, bad |-> SetToSeq(Bad(c))]))
JSpec == JInit /\ [][JNext]_ci
===============================================================================
