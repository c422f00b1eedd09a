------------------------------ MODULE JudgeFile ------------------------------
(* Conformance: recorded validations of real files against the state machine.   *)
(* The input (JSON) has the cases, each with the recorded file and what the      *)
(* implementation found in it.  Each case is one behaviour of Validator; at its  *)
(* end the verdict is printed: the clauses in which the recording differs.       *)
EXTENDS Validator, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
FileSet == JsonDeserialize(IOEnv.FACTS)
Facts == FileSet.defs
JItemPatterns == FileSet.item
JClassPatterns == FileSet.class
JWordChars == SeqRange(Input.wordchars)
JDefs == TLCEval([ c \in DOMAIN Facts |-> TLCEval(LoadDefinition(Facts[c])) ])

VARIABLES ci       \* index of the case
jvars == <<vvars, ci>>

Case(i) == Input.cases[i]

Tests == [
  names    |-> {"validItemName"},
  attrs    |-> {"attribute value", "valid name @signal", "valid name @axes", "axes exists"},
  classes  |-> {"NeXus_group", "known NXDL", "NeXus base class"},
  appdef   |-> {"known NXDL", "NeXus application definition", "NXDL field",
                "NXDL field enumerations"},
  plot     |-> {"NeXus default plot", V3 \o ", NXdata@signal", V3 \o " NIAC2014",
                V2, V2 \o ", @signal=1", V2 \o ", @signal!=1", V2 \o ", multiple @signal=1"} ]
\* everything else belongs to the contents of groups
Owned == UNION { Tests[x] : x \in DOMAIN Tests }
In(c, t) == IF c = "contents" THEN t \notin Owned ELSE t \in Tests[c]

RECURSIVE Few(_, _)
Few(S, n) == IF n = 0 \/ S = {} THEN {} ELSE LET x == CHOOSE y \in S : TRUE IN {x} \cup Few(S \ {x}, n - 1)

Differ(c, o) ==
  LET seen == SeqRange(o.find)
      missing == { x \in found \ seen : In(c, x.t) }
      extra   == { x \in seen \ found : In(c, x.t) }
  IN IF missing = {} /\ extra = {} THEN {}
     ELSE { [clause |-> c, missing |-> Few(missing, 3), extra |-> Few(extra, 3)] }

CatalogDiffer(o) ==
  LET want == { [a |-> items[i].a, cp |-> items[i].cp] : i \in { j \in DOMAIN items : HasAddress(items[j]) } }
      seen == SeqRange(o.cat)
      anon == Cardinality({ i \in DOMAIN items : ~HasAddress(items[i]) })
  IN IF want = seen /\ Len(o.cat) + o.anon = Len(items) /\ anon = o.anon THEN {}
     ELSE { [clause |-> "catalog", missing |-> Few(want \ seen, 3), extra |-> Few(seen \ want, 3)] }

SummaryDiffer(o) ==
  LET ok ==
        /\ \A s \in Statuses : s \in DOMAIN o.summary /\ o.summary[s] = Count(found, s)
        /\ o.score.errors = ScoreErrors(found)
        /\ o.score.rest = ScoreRest(found)
        /\ o.score.count = ScoreCount(found)
  IN IF ok THEN {}
     ELSE { [clause |-> "summary", missing |-> { [s |-> s, n |-> Count(found, s)] : s \in Statuses },
             extra |-> {o.score}] }

(* a printed report: every finding of a requested status, and nothing else *)
ReportDiffer(r) ==
  LET want == { x \in found : x.s \in SeqRange(r.req) }
      seen == SeqRange(r.rows)
      sums == /\ DOMAIN r.counts = Statuses
              /\ \A s \in Statuses : r.counts[s] = Count(found, s)
              /\ r.total = FoldSet(LAMBDA x, acc : acc + x.n, 0, found)
              /\ r.n = ScoreCount(found) /\ r.averageok /\ r.fileok /\ r.same
              /\ DOMAIN r.part = SeqRange(r.req)
              /\ \A s \in DOMAIN r.part : r.part[s] = Count(found, s)
  IN IF want = seen /\ sums THEN {}
     ELSE { [clause |-> "report", missing |-> Few(want \ seen, 3),
             extra |-> Few(seen \ want, 3) \cup { [request |-> r.req, counts |-> r.counts, total |-> r.total,
                                                  part |-> r.part, n |-> r.n, average |-> r.averageok, file |-> r.fileok, same |-> r.same] }] }

Verdict(o) ==
  IF o.exc # "" THEN { [clause |-> "exception", missing |-> {}, extra |-> {o.exc}] }
  ELSE IF pc = "refused" THEN { [clause |-> "refusal", missing |-> {"refusal"}, extra |-> {}] }
  ELSE CatalogDiffer(o)
       \cup UNION { Differ(c, o) : c \in DOMAIN Tests \cup {"contents"} }
       \cup SummaryDiffer(o)
       \cup UNION { ReportDiffer(o.reports[i]) : i \in DOMAIN o.reports }

Start(i) == file' = Case(i).file /\ pc' = "new" /\ items' = <<>> /\ found' = {} /\ ci' = i

JInit == ci = 1 /\ VInit(Case(1).file)

Judge ==
  /\ pc \in {"done", "refused"}
  /\ PrintT("@@" \o ToJson([id |-> Case(ci).id, items |-> Len(items), n |-> Cardinality(found),
                            bad |-> Verdict(Case(ci).obs)]))
  /\ IF ci < Len(Input.cases) THEN Start(ci + 1)
     ELSE pc' = "over" /\ UNCHANGED <<file, items, found, ci>>

JNext == (VNext /\ UNCHANGED ci) \/ Judge
JSpec == JInit /\ [][JNext]_jvars
==============================================================================
