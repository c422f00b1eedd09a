------------------------------ MODULE JudgeTree ------------------------------
(* Conformance: recorded tree views of real files against the specification.      *)
EXTENDS Tree, Json, IOUtils, TLC

Input == JsonDeserialize(IOEnv.CASES)
JLimit == Input.limit

VARIABLES ci, view       \* case; what the tree view must be (with & without attributes)

Case(i) == Input.cases[i]
Views(c) == [ attrs |-> TreeLines(c.file, c.name, TRUE), plain |-> TreeLines(c.file, c.name, FALSE) ]

JInit == ci = 0 /\ view = [attrs |-> <<>>, plain |-> <<>>]

Clip(s) == IF Len(s) > 300 THEN SubSeq(s, 1, 300) ELSE s
FirstDiff(want, seen) ==
  LET n == IF Len(want) < Len(seen) THEN Len(want) ELSE Len(seen)
      d == { i \in 1..n : want[i] # seen[i] }
      i == IF d = {} THEN n + 1 ELSE CHOOSE x \in d : \A y \in d : x <= y
  IN [line |-> i, missing |-> IF i <= Len(want) THEN Clip(want[i]) ELSE "", extra |-> IF i <= Len(seen) THEN Clip(seen[i]) ELSE ""]

Verdict(c) ==
  (IF c.obs.exc # "" THEN << [clause |-> "exception", line |-> 0, missing |-> "", extra |-> c.obs.exc] >>
   ELSE << >>)
  \o (IF c.obs.exc = "" /\ c.obs.attrs # view'.attrs
      THEN << [clause |-> "tree"] @@ FirstDiff(view'.attrs, c.obs.attrs) >> ELSE << >>)
  \o (IF c.obs.exc = "" /\ c.obs.plain # view'.plain
      THEN << [clause |-> "no attributes"] @@ FirstDiff(view'.plain, c.obs.plain) >> ELSE << >>)

Show ==
  /\ ci < Len(Input.cases)
  /\ ci' = ci + 1
  /\ view' = Views(Case(ci'))
  /\ PrintT("@@" \o ToJson([id |-> Case(ci').id, items |-> Len(view'.attrs), n |-> Len(view'.plain),
                            bad |-> Verdict(Case(ci'))]))
JSpec == JInit /\ [][Show]_<<ci, view>>
==============================================================================
