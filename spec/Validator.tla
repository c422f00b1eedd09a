------------------------------ MODULE Validator ------------------------------
(* Validation of one data file as a state machine: open, catalog, then the       *)
(* phases names & attributes, groups, application definitions, default plot,     *)
(* and the report.  Each step adds findings; none is ever withdrawn.             *)
EXTENDS Rules
CONSTANT Defs      \* NXDL definitions in use
VARIABLES file,    \* the data file: [openable |-> BOOLEAN, nodes |-> ...]
          pc,      \* what was done last
          items,   \* the catalog
          found    \* findings so far, a set (each with its multiplicity)

vvars == <<file, pc, items, found>>

\* union of findings with multiplicity
Plus(A, B) ==
  LET key(x) == [a |-> x.a, t |-> x.t, s |-> x.s, k |-> x.k]
      both == { key(x) : x \in A } \cap { key(x) : x \in B }
      N(S, y) == (CHOOSE x \in S : key(x) = y).n
  IN { x \in A \cup B : key(x) \notin both }
     \cup { [a |-> y.a, t |-> y.t, s |-> y.s, k |-> y.k, n |-> N(A, y) + N(B, y)] : y \in both }

PlusAll(sets) == FoldLeft(Plus, {}, sets)

\* the findings of all items; two items may share their address (a field named x@y
\* beside a field x with the attribute y), so that a finding is there twice
Shared(cat) ==
  LET named == { i \in DOMAIN cat : HasAddress(cat[i]) }
  IN Cardinality({ cat[i].a : i \in named }) # Cardinality(named)
OfAll(cat, sets) == IF Shared(cat) THEN PlusAll(sets) ELSE UNION SeqRange(sets)

ReviewNames(f, cat) == OfAll(cat, [ i \in DOMAIN cat |-> NameFindings(f, cat[i]) ])
ReviewAttributes(f, C, cat) == OfAll(cat, [ i \in DOMAIN cat |-> AttributeFindings(f, C, cat[i]) ])
ReviewGroups(f, C, cat) == OfAll(cat, [ i \in DOMAIN cat |-> GroupFindings(f, C, cat, cat[i]) ])
ReviewDeclarations(f, C, cat) ==
  PlusAll([ i \in DOMAIN cat |-> ApplicationDefinitionFindings(f, C, cat[i]) ])

VInit(f) == file = f /\ pc = "new" /\ items = <<>> /\ found = {}

Refuse == pc = "new" /\ ~file.openable /\ pc' = "refused" /\ UNCHANGED <<file, items, found>>

MakeCatalog ==
  /\ pc = "new" /\ file.openable
  /\ items' = Catalog(file)
  /\ pc' = "cataloged" /\ UNCHANGED <<file, found>>

Names ==
  /\ pc = "cataloged"
  /\ found' = Plus(found, ReviewNames(file, items))
  /\ pc' = "names" /\ UNCHANGED <<file, items>>

Attributes ==
  /\ pc = "names"
  /\ found' = Plus(found, ReviewAttributes(file, Defs, items))
  /\ pc' = "attributes" /\ UNCHANGED <<file, items>>

Groups ==
  /\ pc = "attributes"
  /\ found' = Plus(found, ReviewGroups(file, Defs, items))
  /\ pc' = "groups" /\ UNCHANGED <<file, items>>

Declarations ==
  /\ pc = "groups"
  /\ found' = Plus(found, ReviewDeclarations(file, Defs, items))
  /\ pc' = "declarations" /\ UNCHANGED <<file, items>>

Plot ==
  /\ pc = "declarations"
  /\ found' = Plus(found, PlotFindings(file, Defs, items))
  /\ pc' = "done" /\ UNCHANGED <<file, items>>

VNext == Refuse \/ MakeCatalog \/ Names \/ Attributes \/ Groups \/ Declarations \/ Plot

(* ----------------------------------------------------------- summaries *)
Count(S, s) == FoldSet(LAMBDA x, acc : acc + x.n, 0, { x \in S : x.s = s })

Statuses == {"OK", "NOTE", "WARN", "ERROR", "TODO", "UNUSED", "COMMENT", "OPTIONAL"}

\* value of a status; ERROR counts apart (its value, -10000000, outweighs all others)
Worth(s) == CASE s = "OK" -> 100 [] s = "NOTE" -> 75 [] s = "WARN" -> 25
              [] s = "OPTIONAL" -> 99 [] OTHER -> 0
ScoreRest(S)  == FoldSet(LAMBDA s, acc : acc + Worth(s) * Count(S, s), 0, Statuses)
ScoreErrors(S) == Count(S, "ERROR")
ScoreCount(S) == FoldSet(LAMBDA s, acc : acc + Count(S, s), 0,
                         {"OK", "NOTE", "WARN", "ERROR", "OPTIONAL"})
=============================================================================
