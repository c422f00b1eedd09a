-------------------------------- MODULE Nxdl --------------------------------
(* NXDL definitions, as the validation knows them.  A raw definition is the    *)
(* XML: [cat, at, g, f, l, sy], each child a raw node [n, ty, xa, at, g, f, l,  *)
(* en, dim].  Names of the groups, fields & links of one element are made       *)
(* unique, in that order, by appending the least number from 1 on that is free. *)
EXTENDS Text, SequencesExt, TLC

FreshName(n, used) ==
  IF n \notin used THEN n
  ELSE n \o ToString(CHOOSE i \in 1..(Cardinality(used) + 1) :
            /\ n \o ToString(i) \notin used
            /\ \A j \in 1..(i - 1) : n \o ToString(j) \in used)

RECURSIVE Uniquify(_, _, _)
Uniquify(names, used, acc) ==
  IF names = <<>> THEN acc
  ELSE LET m == FreshName(Head(names), used)
       IN Uniquify(Tail(names), used \cup {m}, Append(acc, m))

GroupName(g) == IF g.n # "" THEN g.n ELSE SubSeq(g.ty, 3, Len(g.ty))

RECURSIVE LoadNode(_)
LoadNode(r) ==
  LET all == Uniquify([i \in DOMAIN r.g |-> GroupName(r.g[i])]
                      \o [i \in DOMAIN r.f |-> r.f[i].n]
                      \o [i \in DOMAIN r.l |-> r.l[i].n], {}, <<>>)
      ng == Len(r.g)
      nf == Len(r.f)
  IN [ groups |-> TLCEval([i \in 1..ng |-> [n |-> all[i], raw |-> r.g[i], in |-> LoadNode(r.g[i])]]),
       fields |-> TLCEval([i \in 1..nf |-> [n |-> all[ng + i], raw |-> r.f[i]]]),
       links  |-> TLCEval([i \in 1..Len(r.l) |-> [n |-> all[ng + nf + i], raw |-> r.l[i]]]) ]

FieldNames(d) == { d.in.fields[i].n : i \in DOMAIN d.in.fields }
GroupNames(d) == { d.in.groups[i].n : i \in DOMAIN d.in.groups }
GroupOf(d, n) == d.in.groups[CHOOSE i \in DOMAIN d.in.groups : d.in.groups[i].n = n]

AttrNames(r) == { r.at[i].n : i \in DOMAIN r.at }
AttrEnum(r, n) == r.at[CHOOSE i \in DOMAIN r.at : r.at[i].n = n].en

LoadDefinition(r) == [raw |-> r, cat |-> r.cat, in |-> LoadNode(r)]

HasDefinitionField(g) == \E i \in DOMAIN g.in.fields : g.in.fields[i].n = "definition"

\* @NX_class: may this definition be the class of a group?
BaseClass(d) ==
  \/ d.cat = "base_classes"
  \/ /\ d.cat = "contributed_definitions"
     /\ \/ "entry" \notin GroupNames(d)
        \/ ~HasDefinitionField(GroupOf(d, "entry"))

\* a group of this class: is the definition used as a base class?
UsedAsBaseClass(d) ==
  \/ d.cat = "base_classes"
  \/ /\ d.cat # "applications"
     /\ IF Len(d.in.fields) = 0 /\ Len(d.in.links) = 0 /\ Len(d.in.groups) = 1
        THEN ~HasDefinitionField(d.in.groups[1])
        ELSE TRUE
=============================================================================
