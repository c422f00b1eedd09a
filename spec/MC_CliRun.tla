------------------------------ MODULE MC_CliRun ------------------------------
(* Requests for a file of each kind, with each choice of options.                 *)
EXTENDS Cli, TLC, Json
CONSTANTS MaxStatuses
VARIABLE r
Files == {"a.h5", "b.h5", "plain", "dotted.nxs.h5", "text.txt", "short.h5", "folder", "missing.h5", "good.nxdl.xml", "bad.nxdl.xml", "broken.nxdl.xml",
          "missing.nxdl.xml", "hdf.nxdl.xml", "sub/c.nx"}
Named == Statuses \cup {"ok", "Error", "oPTIONAL", "bad", "", "OKAY", " OK"}
None == [cmd |-> "", file |-> "", set |-> "", report |-> <<>>, max |-> "", attrs |-> TRUE]
\* a set that is named, or the default one
FileSets == {"", "small", "v3.3", "v2018.5", "nosuch", "Small"}
Init == r = None
Next == /\ r = None
        /\ \/ \E f \in Files, m \in {"", "0", "2", "3", "5", "8"}, a \in BOOLEAN : r' = [None EXCEPT !.cmd = "tree", !.file = f, !.max = m, !.attrs = a]
           \/ \E f \in Files, s \in FileSets \ {"v2018.5"} : \E q \in { <<>> } \cup { <<x>> : x \in {"ERROR", "bad"} } :
                 r' = [None EXCEPT !.cmd = "validate", !.file = f, !.set = s, !.report = q]
           \/ \E f \in {"a.h5", "b.h5"}, s \in {"", "v3.3"} : \E k \in 1..MaxStatuses : \E q \in [1..k -> Named] :
                 r' = [None EXCEPT !.cmd = "validate", !.file = f, !.set = s, !.report = q]
           \/ \E c \in {"configuration", "demonstrate"} : r' = [None EXCEPT !.cmd = c]
Spec == Init /\ [][Next]_r
Argv == << r.cmd >> \o (IF r.file = "" THEN <<>> ELSE << r.file >>)
        \o (IF r.set = "" THEN <<>> ELSE << "-f", r.set >>)
        \o (IF r.report = <<>> THEN <<>> ELSE << "--report", Join(r.report, ",") >>)
        \o (IF r.max = "" THEN <<>> ELSE << "-m", r.max >>) \o (IF r.attrs THEN <<>> ELSE <<"-a">>)
\* what is written is what is meant
Q == Request(Argv)
Meant == r # None /\ r.report # <<"">> =>
   /\ Q.how = "run" /\ Q.cmd = r.cmd /\ Q.set = r.set /\ Q.attrs = r.attrs /\ (r.max # "" => Q.max = r.max)
   /\ (r.report # <<>> => Q.report = Join(r.report, ","))
Export == r # None => PrintT("@@" \o ToJson([argv |-> Argv]))
===============================================================================
