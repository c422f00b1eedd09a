------------------------------- MODULE MC_Cli -------------------------------
(* Command lines: words are added one after the other.                           *)
EXTENDS Cli, TLC, Json, IOUtils
CONSTANTS MaxWords
VARIABLE argv

Starts == UNION { { SubSeq(c, 1, i) : i \in 1..Len(c) } : c \in Commands }
          \cup { SubSeq(c, 1, i) \o x : c \in Commands, i \in 0..4, x \in {"x", "s"} } \cup { c \o "s" : c \in Commands }
          \cup { "T", "Tree", "tREE", "TREE", "VALIDATE", "Validate", "Val", "Configuration", "Install", "INS", "hierarchy", "update", "-", "-h", "-v", "--help", "--version", "--vers", "--h", "-x", "--bad", "-vh", "--help=1" }
Words == [ configuration |-> {"x", "-h", "-a"}, demonstrate |-> {"x", "--help", "--report"},
           install |-> {"one", "two", "-u", "--update", "--up", "--update=1", "-h", "-f"},
           tree |-> {"a.h5", "b.h5", "-a", "-m", "3", "0", "-1", "-3", "-m-7", "--max=-2", "-m=-4", "x", "2.0", "1e1", "0x2", "+2", "007", "--max_array_items", "--max=2", "--m", "-m4", "-m2.5", "-m=7", "-am1", "-ma", "--help", "-ha", "-v", "--bad=3", "--report"},
           validate |-> {"a.h5", "-f", "v3.3", "nosuch", "--file_set_name=v3.3", "--file", "-fa4fd52d", "--report", "--rep=error", "ok,note", "bad", "-h", "-v", "-m3"} ]
\* the words that follow are of the command that is meant
\* names of an installation are given together
Together(q) == \A i, j, k \in 2..Len(q) : i < j /\ j < k /\ ~OptionLike(q[i]) /\ ~OptionLike(q[k]) => ~OptionLike(q[j])
Init == argv = <<>>
Next == \/ argv = <<>> /\ \E w \in Starts : argv' = <<w>>
        \/ /\ Len(argv) = 1 /\ argv[1] \notin Commands /\ \E c \in Commands : Ch(argv[1], 1) \in {Ch(c, 1), UpperCase(Ch(c, 1))}
           /\ \E w \in {"a.h5", "-h"} : argv' = Append(argv, w)
        \/ /\ Len(argv) > 0 /\ Len(argv) < MaxWords /\ argv[1] \in Commands
           /\ \E w \in Words[argv[1]] : argv' = Append(argv, w)
           /\ (argv[1] = "install" => Together(argv'))
Spec == Init /\ [][Next]_argv

(* laws of the grammar *)
R == Request(argv)
HowKnown == R.how \in {"none", "help", "version", "refused", "run"}
RunHasNames == R.how = "run" => Len(R.names) >= MinNames[R.cmd] /\ Len(R.names) <= MaxNames[R.cmd] /\ Integer(R.max)
\* a shorter word for the command is the same request, or none at all
Shorter == R.how = "run" =>
   \A i \in 1..Len(argv[1]) : LET s == Request(<<SubSeq(argv[1], 1, i)>> \o Tail(argv)) IN (i >= 2 => s = R) /\ (i < 2 => s.how = "refused")
Export == PrintT("@@" \o ToJson([argv |-> argv, how |-> R.how, cmd |-> R.cmd]))
===============================================================================
