---------------------------- MODULE JudgeInstall ----------------------------
(* Conformance: recorded installations, with what others could see at each step.   *)
EXTENDS Archive, Json, IOUtils, TLC, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE ci

Url(n) == "https://github.com/nexusformat/definitions/archive/" \o n \o ".zip"
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
DateText(d) == ToString(d[1]) \o "-" \o Two(d[2]) \o "-" \o Two(d[3]) \o " " \o Two(d[4]) \o ":" \o Two(d[5]) \o ":" \o Two(d[6])

FileSet(s) == { s.files[i] : i \in DOMAIN s.files }
Same(a, b) == FileSet(a) = FileSet(b) /\ a.info = b.info
NewOK(c, s) ==
  /\ FileSet(s) = FilesOf(c.archive.entries)
  /\ s.info = [ref |-> c.name, sha |-> c.archive.comment, zip_url |-> Url(c.name), last_modified |-> DateText(NewestDate(c.archive.entries))]

Readable(c) == c.archive.kind = "zip"
Good(c) == Readable(c) /\ Enough(c.archive.entries)

\* what is seen at the place of the set
Sets(v) == { v[i] : i \in DOMAIN v }
SeenOf(c, v) ==
  LET at == { x \in Sets(v) : x.n = c.name }
  IN IF at = {} THEN "none"
     ELSE LET s == (CHOOSE x \in at : TRUE).s
          IN IF c.before = "old" /\ Same(s, c.old) THEN "old"
             ELSE IF Good(c) /\ NewOK(c, s) THEN "new"
             ELSE IF c.obs.came /\ Same(s, c.other) THEN "other" ELSE "torn"
\* all the others are as they were
OthersOK(c, v) == { x \in Sets(v) : x.n # c.name } = { [n |-> "another", s |-> c.another] }

\* Publish.tla, as a relation
Step(c, a, b) ==
  \/ a = b
  \/ c.before = "old" /\ c.replace /\ a = "old" /\ b = "none"
  \/ c.before = "old" /\ c.replace /\ a = "none" /\ b = "old"
  \/ a = "none" /\ (c.before = "none" \/ c.replace) /\ b = "new"
  \/ a = "none" /\ b = "other"
  \/ a = "other" /\ b = "none"

Kept(c) == c.before = "old" /\ ~c.replace
Ideal(c) == IF Kept(c) THEN [seen |-> "old", raises |-> FALSE, requests |-> 0]
            ELSE IF c.refused >= 3 THEN [seen |-> c.before, raises |-> TRUE, requests |-> 3]
            ELSE [seen |-> IF Good(c) THEN "new" ELSE c.before, raises |-> ~Good(c), requests |-> c.refused + 1]

Bad(c) ==
  LET o == c.obs
      sv == [ i \in DOMAIN o.seen |-> SeenOf(c, o.seen[i]) ]
      e == sv[Len(sv)]
      id == Ideal(c)
      raised == o.exc # ""
      hitClean == o.hit \in {"os.remove", "os.rmdir"}
      clause(n, ok, more) == IF ok THEN {} ELSE { [clause |-> n, more |-> more] }
  IN clause("seen in part", \A i \in DOMAIN sv : sv[i] # "torn", sv)
     \cup clause("sequence", sv[1] = c.before /\ \A i \in 1..(Len(sv) - 1) : Step(c, sv[i], sv[i + 1]), sv)
     \cup clause("other sets", \A i \in DOMAIN o.seen : OthersOK(c, o.seen[i]), sv)
     \cup clause("outside", ~o.outside, "")
     \cup clause("listed", { o.listed[i] : i \in DOMAIN o.listed } = { x.n : x \in Sets(o.seen[Len(o.seen)]) }, o.listed)
     \cup clause("url", \A i \in DOMAIN o.urls : o.urls[i] = Url(c.name), o.urls)
     \cup (IF c.fault.kind = "none" \/ (c.fault.kind # "none" /\ o.hit = "")
           THEN clause("outcome", e = id.seen /\ raised = id.raises, [end |-> e, exc |-> o.exc])
                \cup clause("requests", Len(o.urls) = id.requests, Len(o.urls))
                \cup clause("left", o.left = 0, o.left)
                \cup clause("ended", ~o.crashed, "")
           ELSE IF c.fault.kind \in {"raise", "interrupt"}
           THEN clause("raised keeps", raised => e = c.before \/ (hitClean /\ e = id.seen), [end |-> e, exc |-> o.exc])
                \cup clause("done is done", ~raised => e = id.seen /\ ~id.raises, e)
                \cup clause("left", o.left = 0 \/ hitClean, o.left)
                \cup clause("ended", ~o.crashed, "")
           ELSE IF c.fault.kind = "other"
           THEN clause("other", e \in {c.before, "new", "other"}, e)
                \cup clause("something", o.came => e \in {"new", "other"}, e)
                \cup clause("done is done", ~raised /\ Good(c) => e \in {"new", "other"} , e)
                \cup clause("left", o.left = 0, o.left)
           ELSE \* crash, also in the middle of writing a file
                clause("crash", e \in {c.before, "new"} \/
                         (e = "none" /\ c.replace
                          /\ (\E i \in DOMAIN o.found : Same(o.found[i], c.old))
                          /\ (\E i \in DOMAIN o.found : NewOK(c, o.found[i]))), e)
                \cup clause("recovers", ~Good(c) \/ (Len(o.recovered) = 1 /\ OthersOK(c, o.recovered[1])
                               /\ SeenOf(c, o.recovered[1]) = "new"), ""))

JInit == ci = 0
JNext == /\ ci < Len(Cases) /\ ci' = ci + 1
         /\ LET c == Cases[ci']
            IN PrintT("@@" \o ToJson([id |-> c.id, n |-> Len(c.obs.seen), bad |-> SetToSeq(Bad(c)),
                                      end |-> SeenOf(c, c.obs.seen[Len(c.obs.seen)])]))
JSpec == JInit /\ [][JNext]_ci
=============================================================================
