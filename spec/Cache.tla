------------------------------- MODULE Cache -------------------------------
(* Which NXDL file sets there are, and which one is chosen.                     *)
(* The source cache is part of the software; the user cache changes.            *)
(* Dates are numbers here (their order is all that counts).                     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Source      \* name -> date, of the sets in the source cache

VARIABLES user,       \* name -> date, of the sets in the user cache
          known,      \* what was there when it was last looked at: name -> [c, d]
          default,    \* the set that is used when none is named: its name, and its cache
          exc, told   \* outcome of the last operation

cvars == <<user, known, default, exc, told>>

Nothing == [n |-> "", c |-> ""]
\* a set in the user cache hides the one of that name in the source cache
Present == [ n \in DOMAIN Source \cup DOMAIN user |->
               IF n \in DOMAIN user THEN [c |-> "user", d |-> user[n]]
               ELSE [c |-> "source", d |-> Source[n]] ]
PresentWith(u) == [ n \in DOMAIN Source \cup DOMAIN u |->
               IF n \in DOMAIN u THEN [c |-> "user", d |-> u[n]]
               ELSE [c |-> "source", d |-> Source[n]] ]
Sets(k, ns) == { [n |-> n, c |-> k[n].c] : n \in ns }
Latest(k) == { n \in DOMAIN k : \A m \in DOMAIN k : k[m].d <= k[n].d }

CInit(u) ==
  /\ user = u /\ known = PresentWith(u) /\ default \in Sets(PresentWith(u), Latest(PresentWith(u)))
  /\ exc = "" /\ told = Nothing

\* a new process looks at the caches
Start ==
  /\ known' = Present
  /\ default' \in Sets(known', Latest(known'))
  /\ exc' = "" /\ told' = default' /\ UNCHANGED user

\* file sets come and go, by other processes
Add(n, d) ==
  /\ user' = [ m \in DOMAIN user \cup {n} |-> IF m = n THEN d ELSE user[m] ]
  /\ exc' = "" /\ told' = Nothing /\ UNCHANGED <<known, default>>
Drop(n) ==
  /\ n \in DOMAIN user
  /\ user' = [ m \in DOMAIN user \ {n} |-> user[m] ]
  /\ exc' = "" /\ told' = Nothing /\ UNCHANGED <<known, default>>

\* the list of all file sets
List ==
  /\ known' = Present
  /\ exc' = "" /\ told' = Nothing /\ UNCHANGED <<user, default>>

\* choose by name among the sets which are known, else the latest one
Select(n) ==
  /\ default' \in Sets(known, IF n \in DOMAIN known THEN {n} ELSE Latest(known))
  /\ exc' = "" /\ told' = default' /\ UNCHANGED <<user, known>>

\* definitions by name for a validation: there is no substitute for the one that was named
Load(n) ==
  /\ known' = Present
  /\ IF n \in DOMAIN known'
     THEN default' = [n |-> n, c |-> known'[n].c] /\ exc' = "" /\ told' = default'
     ELSE default' = default /\ exc' = "KeyError" /\ told' = Nothing
  /\ UNCHANGED user

\* the definitions that are used when no set is named: they may be gone by now
LoadDefault ==
  /\ IF default.c = "source" \/ default.n \in DOMAIN user
     THEN exc' = "" /\ told' = default
     ELSE exc' = "FileNotFound" /\ told' = Nothing
  /\ UNCHANGED <<user, known, default>>

CDo(op, n, d) ==
  CASE op = "start"  -> Start
    [] op = "add"    -> Add(n, d)
    [] op = "drop"   -> Drop(n)
    [] op = "list"   -> List
    [] op = "select" -> Select(n)
    [] op = "load"   -> IF n = "" THEN LoadDefault ELSE Load(n)

(* ------------------------------------------------------------- properties *)
NamedOrRefused == [][ exc' # "" => default' = default ]_cvars
\* what is told is what was asked for, or a latest one, and there is always a default
DefaultIsASet == default.n # "" /\ default.c \in {"source", "user"}
OnlyChoiceChanges == [][ user' # user => default' = default /\ known' = known ]_cvars
SourceAlwaysThere == DOMAIN Source \subseteq DOMAIN Present
UserHidesSource == \A n \in DOMAIN user : Present[n].c = "user"
============================================================================
