------------------------------- MODULE Publish -------------------------------
(* What others see of an installation: a file set is there, complete, or not.     *)
(* before: what was there ("none" or "old"); new: what is installed; other: what   *)
(* another process installs meanwhile.                                            *)
EXTENDS Naturals
VARIABLES Before, Replace, seen
PInit == seen = Before
\* the moment between the two, when an old set is replaced
Gap == Before = "old" /\ Replace /\ seen = "old" /\ seen' = "none"
Back == Before = "old" /\ Replace /\ seen = "none" /\ seen' = "old"
New == seen = "none" /\ (Before = "none" \/ Replace) /\ seen' = "new"
\* never: a set in part, or a mixture
\* another installation, where there is none; this one comes later, and replaces it
Other == seen = "none" /\ seen' = "other"
GapOther == seen = "other" /\ seen' = "none"
BackOther == seen = "none" /\ seen' = "other"
PNext == (Gap \/ Back \/ New \/ Other \/ GapOther \/ BackOther) /\ UNCHANGED <<Before, Replace>>
PSpec == PInit /\ [][PNext]_<<Before, Replace, seen>>
==============================================================================
