----------------------------- MODULE Lifecycle -----------------------------
(* The life of validators: which file each has open, which results it holds,    *)
(* what is refused.  Results are named by the content they belong to; what they  *)
(* are is the business of module Validator.                                      *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Names,     \* validators
          Good,      \* names of files that are HDF5
          Bad,       \* names of files or folders that are not HDF5
          Missing    \* names of files that do not exist

VARIABLES open,      \* validator -> what it has open, or NoFile
          res,       \* validator -> whose results it holds, or NoFile
          named,     \* validator -> was a file named, that existed?
          content,   \* good file -> its version (files may be replaced)
          gone,      \* good files which do not exist now
          exc,       \* how the last operation ended: "" or the name of the exception
          shown      \* what the last operation told: results, or NoFile

lvars == <<open, res, named, content, gone, exc, shown>>

NoFile == [f |-> "", v |-> 0]
File(f) == [f |-> f, v |-> content[f]]
Nothing == [f |-> "-", v |-> 0]      \* the operation tells nothing

LInit ==
  /\ open = [n \in Names |-> NoFile] /\ res = [n \in Names |-> NoFile]
  /\ named = [n \in Names |-> FALSE] /\ content = [f \in Good |-> 1] /\ gone = {}
  /\ exc = "" /\ shown = Nothing

Validate(n, f) ==
  /\ f \in Good \ gone
  /\ open' = [open EXCEPT ![n] = File(f)]
  /\ res' = [res EXCEPT ![n] = File(f)]
  /\ named' = [named EXCEPT ![n] = TRUE]
  /\ exc' = "" /\ shown' = Nothing /\ UNCHANGED <<content, gone>>

\* the file is there, but it is not HDF5: nothing is left of the file before
Refuse(n, f) ==
  /\ f \in Bad
  /\ open' = [open EXCEPT ![n] = NoFile]
  /\ res' = [res EXCEPT ![n] = NoFile]
  /\ named' = [named EXCEPT ![n] = TRUE]
  /\ exc' = "HDF5_Open_Error" /\ shown' = Nothing /\ UNCHANGED <<content, gone>>

\* there is no such file: nothing happens
NotFound(n, f) ==
  /\ f \in Missing \cup gone
  /\ exc' = "FileNotFound" /\ shown' = Nothing /\ UNCHANGED <<open, res, named, content, gone>>

Close(n) ==
  /\ open' = [open EXCEPT ![n] = NoFile]
  /\ exc' = "" /\ shown' = Nothing /\ UNCHANGED <<res, named, content, gone>>

\* summary, score or list of findings
Ask(n) ==
  /\ exc' = "" /\ shown' = res[n] /\ UNCHANGED <<open, res, named, content, gone>>

Report(n) ==
  /\ named[n]
  /\ exc' = "" /\ shown' = res[n] /\ UNCHANGED <<open, res, named, content, gone>>

\* someone puts other content in place of the file (another file with the same name)
Replace(f) ==
  /\ f \in Good
  /\ content' = [content EXCEPT ![f] = 3 - @]
  /\ gone' = gone \ {f}
  /\ exc' = "" /\ shown' = Nothing /\ UNCHANGED <<open, res, named>>

Remove(f) ==
  /\ f \in Good \ gone
  /\ gone' = gone \cup {f}
  /\ exc' = "" /\ shown' = Nothing /\ UNCHANGED <<open, res, named, content>>

\* a tree view of the file
View(f) ==
  /\ f \in Good \ gone
  /\ exc' = "" /\ shown' = File(f) /\ UNCHANGED <<open, res, named, content, gone>>

Do(op, n, f) ==
  CASE op = "validate" -> Validate(n, f) \/ Refuse(n, f) \/ NotFound(n, f)
    [] op = "close"    -> Close(n)
    [] op = "ask"      -> Ask(n)
    [] op = "report"   -> Report(n)
    [] op = "replace"  -> Replace(f)
    [] op = "remove"   -> Remove(f)
    [] op = "view"     -> View(f)

Files == Good \cup Bad \cup Missing
Ops == [op : {"validate"}, n : Names, f : Files]
       \cup [op : {"close", "ask", "report"}, n : Names, f : {""}]
       \cup [op : {"replace", "remove", "view"}, n : {""}, f : Good]

(* ------------------------------------------------------------- properties *)
OpenHasResults == \A n \in Names : open[n] # NoFile => res[n] = open[n]
ResultsAreNamed == \A n \in Names : res[n] # NoFile => named[n]
\* an operation on one validator is not seen by another
Alone(n) == [][ (open'[n] # open[n] \/ res'[n] # res[n]) =>
                \A m \in Names \ {n} : open'[m] = open[m] /\ res'[m] = res[m] ]_lvars
\* a refusal never leaves results of anything
RefusalIsClean == [][ exc' = "HDF5_Open_Error" => \E n \in Names : res'[n] = NoFile /\ open'[n] = NoFile ]_lvars
\* results change only by a validation
ResultsStay == [][ shown' # Nothing => res' = res /\ open' = open ]_lvars
============================================================================
