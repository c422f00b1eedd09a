--------------------------- MODULE JudgeLifecycle ---------------------------
(* Conformance: recorded traces of real validators against Lifecycle.            *)
(* Each step of a trace has the operation and what was observed after it.        *)
EXTENDS Lifecycle, Json, IOUtils, TLC, SequencesExt
Input == JsonDeserialize(IOEnv.CASES)
JNames == ToSet(Input.names)
JGood == ToSet(Input.good)
JBad == ToSet(Input.bad)
JMissing == ToSet(Input.missing)
VARIABLES ci, k, bad
jvars == <<lvars, ci, k, bad>>
Steps == Input.cases[ci].steps

\* what is observed: the exception, what was told, the files that are open in the process
\* (a list with one entry for each time a file is open), whether the bytes of the files are as before
Agrees(o) ==
  /\ o.exc = exc'
  /\ Len(o.open) = Cardinality({ n \in JNames : open'[n] # NoFile })
  /\ \A f \in JGood : Cardinality({ i \in DOMAIN o.open : o.open[i] = f })
                     = Cardinality({ n \in JNames : open'[n].f = f })
  /\ o.shown = shown'
  /\ o.unchanged

JInit == LInit /\ ci = 1 /\ k = 0 /\ bad = <<>>

Step ==
  /\ k < Len(Steps)
  /\ k' = k + 1 /\ ci' = ci
  /\ Do(Steps[k'].op, Steps[k'].n, Steps[k'].f)
  /\ bad' = IF Agrees(Steps[k'].o) \/ Len(bad) > 0 THEN bad
            ELSE << [step |-> k', op |-> Steps[k'].op, n |-> Steps[k'].n, f |-> Steps[k'].f, observed |-> Steps[k'].o,
                     expected |-> [exc |-> exc', open |-> open', shown |-> shown']] >>

Done ==
  /\ k = Len(Steps)
  /\ PrintT("@@" \o ToJson([id |-> Input.cases[ci].id, n |-> k, bad |-> bad]))
  /\ ci < Len(Input.cases)
  /\ ci' = ci + 1 /\ k' = 0 /\ bad' = <<>>
  /\ open' = [n \in Names |-> NoFile] /\ res' = [n \in Names |-> NoFile]
  /\ named' = [n \in Names |-> FALSE] /\ content' = [f \in Good |-> 1] /\ gone' = {}
  /\ exc' = "" /\ shown' = Nothing

JSpec == JInit /\ [][Step \/ Done]_jvars
=============================================================================
