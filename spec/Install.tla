------------------------------- MODULE Install -------------------------------
(* The installation of a file set, step by step, with failures at any step:        *)
(* a step may raise (as on a full disk), the process may end (crash), and another  *)
(* process may install the same set meanwhile.                                    *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES Before,      \* what is installed before: "none" or "old" (these five do not change)
          Replace,     \* TRUE: replace it
          Refused,     \* how many tries to download fail with a connection error
          Content,     \* what is downloaded: "good", "few" (no definitions), "text" (no archive), "broken" (at the 2nd file)
          Files,       \* number of files in it
          pc,          \* where the installer is
          dest,        \* what is at the place of the set
          stage,       \* the staging folder: "none" or [files, info]
          aside,       \* what was moved there
          tries, requests,
          faults,      \* how many faults may still come
          end          \* how it ended: "", "done", "kept", "raised", "interrupted" (while it cleaned up), "crashed"
situation == <<Before, Replace, Refused, Content, Files>>
ivars == <<situation, pc, dest, stage, aside, tries, requests, faults, end>>

Tries == 3             \* how often a download is tried
NoStage == [is |-> FALSE, files |-> 0, info |-> FALSE]
IInit == /\ pc = "look" /\ dest = Before /\ stage = NoStage /\ aside = "none"
         /\ tries = 0 /\ requests = 0 /\ faults = 1 /\ end = ""

Running == end = ""
Goto(p) == pc' = p /\ UNCHANGED end
\* all that is staged is removed, whatever happened
Clean == stage' = NoStage /\ aside' = "none"

Look ==
  /\ pc = "look"
  /\ IF dest # "none" /\ ~Replace
     THEN end' = "kept" /\ pc' = "end" ELSE Goto("request")
  /\ UNCHANGED <<dest, stage, aside, tries, requests, faults>>
Request ==
  /\ pc = "request"
  /\ requests' = requests + 1 /\ tries' = tries + 1
  /\ IF requests < Refused
     THEN IF tries' = Tries THEN end' = "raised" /\ pc' = "end" ELSE Goto("request")
     ELSE IF Content = "text" THEN end' = "raised" /\ pc' = "end" ELSE Goto("stage")
  /\ UNCHANGED <<dest, stage, aside, faults>>
Stage ==
  /\ pc = "stage" /\ stage' = [NoStage EXCEPT !.is = TRUE] /\ Goto("files")
  /\ UNCHANGED <<dest, aside, tries, requests, faults>>
ExtractFile ==
  /\ pc = "files"
  /\ IF Content = "few" \/ (Content = "broken" /\ stage.files = 1)
     THEN Clean /\ end' = "raised" /\ pc' = "end"
     ELSE /\ stage' = [stage EXCEPT !.files = @ + 1] /\ UNCHANGED aside
          /\ Goto(IF stage'.files = Files THEN "info" ELSE "files")
  /\ UNCHANGED <<dest, tries, requests, faults>>
Info ==
  /\ pc = "info" /\ stage' = [stage EXCEPT !.info = TRUE] /\ Goto("aside")
  /\ UNCHANGED <<dest, aside, tries, requests, faults>>
Aside ==
  /\ pc = "aside"
  /\ IF dest # "none" THEN aside' = dest /\ dest' = "none" ELSE UNCHANGED <<aside, dest>>
  /\ Goto("publish")
  /\ UNCHANGED <<stage, tries, requests, faults>>
Publication ==
  /\ pc = "publish"
  /\ IF dest = "none"
     THEN dest' = "new" /\ stage' = [stage EXCEPT !.files = 0, !.info = FALSE] /\ Goto("clean") /\ UNCHANGED aside
     ELSE Clean /\ end' = "raised" /\ pc' = "end" /\ UNCHANGED dest
  /\ UNCHANGED <<tries, requests, faults>>
CleanUp ==
  /\ pc = "clean" /\ Clean /\ end' = "done" /\ pc' = "end"
  /\ UNCHANGED <<dest, tries, requests, faults>>

\* a step raises instead of being done: what was moved aside comes back
Raise ==
  /\ faults > 0 /\ faults' = faults - 1 /\ pc \in {"stage", "files", "info", "aside", "publish"}
  /\ dest' = IF aside # "none" /\ dest = "none" THEN aside ELSE dest
  /\ Clean /\ end' = "raised" /\ pc' = "end" /\ UNCHANGED <<tries, requests>>
Interrupted ==
  /\ faults > 0 /\ faults' = faults - 1 /\ pc = "clean" /\ end' = "interrupted" /\ pc' = "end"
  /\ UNCHANGED <<dest, stage, aside, tries, requests>>
Crash ==
  /\ faults > 0 /\ faults' = faults - 1 /\ pc # "end"
  /\ end' = "crashed" /\ pc' = "end" /\ UNCHANGED <<dest, stage, aside, tries, requests>>
OtherProcess ==
  /\ faults > 0 /\ faults' = faults - 1 /\ pc # "end" /\ dest = "none"
  /\ dest' = "other" /\ UNCHANGED <<pc, stage, aside, tries, requests, end>>

INext == UNCHANGED situation /\ Running /\ (Look \/ Request \/ Stage \/ ExtractFile \/ Info \/ Aside \/ Publication \/ CleanUp
                        \/ Raise \/ Interrupted \/ Crash \/ OtherProcess)
Work == Look \/ Request \/ Stage \/ ExtractFile \/ Info \/ Aside \/ Publication \/ CleanUp
ISpec == IInit /\ [][INext]_ivars /\ WF_ivars(UNCHANGED situation /\ Running /\ Work)

(* ------------------------------------------------------------- properties *)
\* what others see is a complete set or none
P == INSTANCE Publish WITH seen <- dest
Refines == P!PSpec
NotForced == (Before = "old" /\ ~Replace) => dest = "old" /\ requests = 0
NothingLost == dest = "none" /\ (Before = "old" \/ aside # "none") =>
                 aside # "none" /\ stage.files = Files /\ stage.info
NoTrace == end \in {"done", "kept", "raised"} => ~stage.is
RaisedKeeps == end = "raised" => dest \in {Before, "other"}
DoneIsNew == end \in {"done", "interrupted"} => dest = "new"
Polite == requests <= Tries
Ends == <>(end # "")
==============================================================================
