------------------------------ MODULE MC_Order ------------------------------
(* One process that uses several file sets: what an operation gives depends on    *)
(* nothing but the set it uses; without a name this is the last set that was      *)
(* chosen, the latest one at first.  A set may be replaced on the disk: from the   *)
(* next loading on the process uses the new one (until then it may use either, so  *)
(* it is not asked); what was loaded before stays as it was.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, FileSets, Replaced
VARIABLES default,    \* the set used when none is named
          kept,       \* version of each set as it was loaded last, 0: was not
          disk,       \* version of each set on the disk
          stale,      \* sets that were replaced and not loaded since
          history
vars == <<default, kept, disk, stale, history>>

Rec(op, s, uses, v) == history' = Append(history, [op |-> op, set |-> s, uses |-> uses, version |-> v])
Init == /\ default = "latest" /\ kept = [s \in FileSets |-> 0] /\ disk = [s \in FileSets |-> 1]
        /\ stale = {} /\ history = <<>>
Load(s) == /\ default' = s /\ kept' = [kept EXCEPT ![s] = disk[s]] /\ stale' = stale \ {s}
           /\ Rec("load", s, s, disk[s]) /\ UNCHANGED disk
Again(s) == kept[s] # 0 /\ Rec("again", s, s, kept[s]) /\ UNCHANGED <<default, kept, disk, stale>>
SchemaOf(s) == Rec("schema", s, s, disk[s]) /\ UNCHANGED <<default, kept, disk, stale>>
Verdict(s) == s \notin stale /\ default' = s /\ Rec("verdict", s, s, disk[s]) /\ UNCHANGED <<kept, disk, stale>>
Unnamed(op) == /\ default \notin stale
               /\ Rec(op, "", default, IF default = "latest" THEN 1 ELSE disk[default])
               /\ UNCHANGED <<default, kept, disk, stale>>
Replace(s) == /\ s \in Replaced
              /\ disk' = [disk EXCEPT ![s] = 3 - @] /\ stale' = stale \cup {s}
              /\ Rec("replace", s, s, 3 - disk[s]) /\ UNCHANGED <<default, kept>>
Next == /\ Len(history) < MaxSteps
        /\ \/ \E s \in FileSets : Load(s) \/ Again(s) \/ SchemaOf(s) \/ Verdict(s) \/ Replace(s)
           \/ Unnamed("verdict") \/ Unnamed("tree")
Spec == Init /\ [][Next]_vars

LastChosen == LET q == SelectSeq(history, LAMBDA x : x.op = "load" \/ (x.op = "verdict" /\ x.set # ""))
              IN default = IF Len(q) = 0 THEN "latest" ELSE q[Len(q)].set
\* what is not stale has been loaded from, or not replaced since it was on, the disk
Fresh == \A s \in FileSets \ stale : kept[s] \in {0, disk[s]}
Export == Len(history) = MaxSteps => PrintT("@@" \o ToJson(history))
=============================================================================
