------------------------------- MODULE Archive -------------------------------
(* What is taken from an archive of NXDL definitions.                            *)
(* entries: the files in the archive, in order: [name, c (content), date], where  *)
(* name is as stored and date is <<year, month, day, hour, minute, second>>.      *)
EXTENDS Text

\* the steps of a path, as file names: without empty ones and "."
Steps(name) == SelectSeq(Split(name, "/"), LAMBDA x : x # "" /\ x # ".")
Absolute(name) == StartsWith(name, "/")

\* "c.nxdl.xml" ends in ".xml"; ".xml" and "xml." have no ending
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "." THEN i ELSE LastDot(s, i - 1)
Ending(file) ==
  LET i == LastDot(file, Len(file))
  IN IF i <= 1 \/ i = Len(file) THEN ""
     ELSE IF \A j \in 1..i : Ch(file, j) = "." THEN "" ELSE SubSeq(file, i, Len(file))

Top(entries) == Split(entries[1].name, "/")[1]

Categories == {"base_classes", "applications", "contributed_definitions"}
\* definitions, schemas and style sheets, directly in a folder of definitions or in (any) folder named as the top
Taken(e, top) ==
  LET s == Steps(e.name)
  IN /\ Len(s) > 0
     /\ Ending(s[Len(s)]) \in {".xsd", ".xml", ".xsl"}
     /\ (IF Len(s) > 1 THEN s[Len(s) - 1] ELSE "") \in Categories \cup {top}

\* where it goes: never outside of the place that is meant for it
Place(name) == SelectSeq(Steps(name), LAMBDA x : x # "..")

TakenOf(entries) == { i \in DOMAIN entries : Taken(entries[i], Top(entries)) }
InTop(entries, i) == LET p == Place(entries[i].name) IN Len(p) > 1 /\ p[1] = Top(entries)

\* the files of the installed set: path in the set -> content (the last one of a name counts)
FilesOf(entries) ==
  LET t == { i \in TakenOf(entries) : InTop(entries, i) }
      rel(i) == Join(Tail(Place(entries[i].name)), "/")
      last == { i \in t : \A j \in t : rel(j) = rel(i) => j <= i }
  IN { [p |-> rel(i), c |-> entries[i].c] : i \in last }

\* dates are compared by their parts
RECURSIVE Before(_, _, _)
Before(a, b, i) == IF i > Len(a) THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Before(a, b, i + 1)
\* an entry with the very name of a later one is not there any more
NewestDate(entries) ==
  LET t == { i \in TakenOf(entries) : \A j \in DOMAIN entries : j > i => entries[j].name # entries[i].name }
      n == CHOOSE i \in t : \A j \in t : ~Before(entries[i].date, entries[j].date, 1)
  IN entries[n].date

\* less than two files, or none in the top folder: this is no set of definitions
\* nor is an archive without a top folder
Enough(entries) ==
  /\ Len(entries) > 0 /\ Top(entries) \notin {"", ".", ".."}
  /\ Cardinality(TakenOf(entries)) >= 2
  /\ \E i \in TakenOf(entries) : InTop(entries, i)
============================================================================
