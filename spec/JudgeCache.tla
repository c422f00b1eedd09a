----------------------------- MODULE JudgeCache -----------------------------
(* Conformance: recorded use of the caches.  Where the specification leaves a     *)
(* choice (dates that are equal) the recording decides, if it is one of those.    *)
EXTENDS Cache, Json, IOUtils, TLC, SequencesExt
Input == JsonDeserialize(IOEnv.CASES)
JSource == Input.source
VARIABLES ci, k, bad
jvars == <<cvars, ci, k, bad>>
Steps == Input.cases[ci].steps
Op(i) == Steps[i]
Empty == [ x \in {} |-> 0 ]

\* a list is right when it has every set once, with its cache and date, in the order of the dates
ListOK(o) ==
  LET rows == o.rows
  IN /\ Len(rows) = Cardinality(DOMAIN Present)
     /\ \A i \in DOMAIN rows : /\ rows[i].n \in DOMAIN Present
                               /\ rows[i].c = Present[rows[i].n].c /\ rows[i].d = Present[rows[i].n].d
                               /\ rows[i].path /\ rows[i].sha
     /\ \A i, j \in DOMAIN rows : i < j => rows[i].d <= rows[j].d /\ rows[i].n # rows[j].n

Agrees(s) ==
  LET o == s.o
  IN /\ o.exc = exc'
     /\ o.default = default'
     /\ (s.op \in {"start", "select", "load"} => o.told = told')
     /\ (s.op = "list" => ListOK(o))

JInit == CInit(Empty) /\ ci = 1 /\ k = 0 /\ bad = <<>>
\* the first step of each case starts a process
Step ==
  /\ k < Len(Steps) /\ k' = k + 1 /\ ci' = ci
  /\ LET s == Op(k + 1)
     IN \/ CDo(s.op, s.n, s.d) /\ Agrees(s) /\ bad' = bad
        \/ /\ ~ENABLED (CDo(s.op, s.n, s.d) /\ Agrees(s))
           /\ bad' = Append(bad, [step |-> k + 1, op |-> s.op, n |-> s.n, d |-> s.d, observed |-> s.o, user |-> user,
                                  default |-> default])
           /\ UNCHANGED cvars
\* after the first disagreement there is nothing to compare
AtEnd == k = Len(Steps) \/ bad # <<>>
Done ==
  /\ AtEnd
  /\ PrintT("@@" \o ToJson([id |-> Input.cases[ci].id, n |-> k, bad |-> bad]))
  /\ ci < Len(Input.cases) /\ ci' = ci + 1 /\ k' = 0 /\ bad' = <<>>
  /\ user' = Empty /\ known' = PresentWith(Empty) /\ default' = CHOOSE n \in Sets(PresentWith(Empty), Latest(PresentWith(Empty))) : TRUE
  /\ exc' = "" /\ told' = Nothing
JSpec == JInit /\ [][(~AtEnd /\ Step) \/ Done]_jvars
=============================================================================
