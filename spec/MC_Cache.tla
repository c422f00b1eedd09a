------------------------------ MODULE MC_Cache ------------------------------
(* All sequences of operations up to a length.  Dates: 2, 4, 6 are those of the  *)
(* sets in the source cache, others lie before, between (same day, too) and after.              *)
EXTENDS Cache, Json, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
MSource == [ x \in {"a4fd52d", "v3.3", "v2018.5"} |->
               CASE x = "a4fd52d" -> 2 [] x = "v3.3" -> 4 [] OTHER -> 6 ]
VARIABLE hist
Ops == [op : {"add"}, n : {"main", "v3.3", "aaa"}, d : {1, 5, 6, 7, 8}]
       \cup [op : {"drop"}, n : {"main", "v3.3", "aaa"}, d : {0}]
       \cup [op : {"select"}, n : {"", "main", "v3.3", "a4fd52d", "none"}, d : {0}]
       \cup [op : {"load"}, n : {"", "main", "aaa", "none", "v3.3"}, d : {0}]
       \cup [op : {"list", "start"}, n : {""}, d : {0}]
Empty == [ x \in {} |-> 0 ]
Init == CInit(Empty) /\ hist = <<>>
\* content of the source cache is not loaded here (that takes long)
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ o.op = "load" => IF o.n = "" THEN default.c = "user" ELSE (o.n \in DOMAIN user \/ o.n \notin DOMAIN Source)
                          /\ CDo(o.op, o.n, o.d) /\ hist' = Append(hist, o)
Export == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_<<cvars, hist>>
=============================================================================
