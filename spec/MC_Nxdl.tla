------------------------------ MODULE MC_Nxdl ------------------------------
(* All short sequences of items, with names that meet the numbers given to others. *)
EXTENDS Definitions, Json
CONSTANT MaxItems
Kinds == {"g", "G", "f", "l"}     \* unnamed group, named group, field, link
ItemNames == {"a", "a1"}
Item == [k : Kinds, n : ItemNames]
VARIABLE doc
Init == doc \in { [items |-> s, deep |-> d] : s \in UNION { [1..n -> Item] : n \in 1..MaxItems }, d \in BOOLEAN }
Next == UNCHANGED doc
Spec == Init /\ [][Next]_doc

Order(s) == SelectSeq(s, LAMBDA x : x.k \in {"g", "G"}) \o SelectSeq(s, LAMBDA x : x.k = "f") \o SelectSeq(s, LAMBDA x : x.k = "l")
Wanted == [ i \in DOMAIN doc.items |-> Order(doc.items)[i].n ]
Names == Named(Wanted, {})
\* nothing is lost, the first one of each name keeps it, numbers are the first ones that are free
AllKept == Cardinality(SeqRange(Names)) = Len(doc.items)
FirstKeeps == \A i \in DOMAIN Names : (\A j \in 1..(i - 1) : Names[j] # Wanted[i]) => Names[i] = Wanted[i]
Numbered == \A i \in DOMAIN Names : StartsWith(Names[i], Wanted[i])
Stable == \A i \in DOMAIN Names : Names[i] # Wanted[i] => \E j \in 1..(i - 1) : Names[j] = Wanted[i]
Export == PrintT("@@" \o ToJson(doc))
=============================================================================
