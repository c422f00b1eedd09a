----------------------------- MODULE MC_Install -----------------------------
(* All situations: each is an initial state, so that one run checks them all.     *)
EXTENDS Install, TLC, Json
Init == /\ Before \in {"none", "old"} /\ Replace \in BOOLEAN /\ Refused \in 0..4
        /\ Content \in {"good", "few", "text", "broken"} /\ Files \in {2, 3}
        /\ IInit
Spec == Init /\ [][INext]_ivars /\ WF_ivars(UNCHANGED situation /\ Running /\ Work)
AtStart == pc = "look" /\ faults = 1 /\ end = "" /\ dest = Before
Export == AtStart => PrintT("@@" \o ToJson([before |-> Before, replace |-> Replace, refused |-> Refused, content |-> Content, files |-> Files]))
=============================================================================
