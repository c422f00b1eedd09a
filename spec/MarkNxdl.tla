------------------------------ MODULE MarkNxdl ------------------------------
(* Which NXDL files are valid with their schema, which name attributes twice.     *)
EXTENDS Definitions, Json, IOUtils, SequencesExt
Input == JsonDeserialize(IOEnv.CASES)
Cases == Input.cases
VARIABLE ci
JInit == ci = 0
JNext == /\ ci < Len(Cases) /\ ci' = ci + 1
         /\ LET c == Cases[ci']
                P == { <<c.pats[i][1], c.pats[i][2]>> : i \in DOMAIN c.pats }
            IN PrintT("@@" \o ToJson([id |-> c.id, ok |-> Valid(Input.xsds[c.set], P, c.doc), twice |-> Ambiguous(c.doc)]))
JSpec == JInit /\ [][JNext]_ci
=============================================================================
