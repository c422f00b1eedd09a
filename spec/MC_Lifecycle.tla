---------------------------- MODULE MC_Lifecycle ----------------------------
(* All operation sequences up to a length; each complete one is printed.         *)
EXTENDS Lifecycle, Json, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
Two == IOEnv.TWO = "yes"
MNames == IF Two THEN {"v1", "v2"} ELSE {"v1"}
MGood == {"good1", "good2"}
MBad == IF Two THEN {"text"} ELSE {"text", "folder", "cut"}
MMissing == {"missing"}
VARIABLE hist
Init == LInit /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : Do(o.op, o.n, o.f) /\ hist' = Append(hist, o)
\* the last operation asks, else it is of no use; two operations without effect are one
Export == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
Spec == Init /\ [][Next]_<<lvars, hist>>
AllAlone == \A n \in Names : Alone(n)
=============================================================================
