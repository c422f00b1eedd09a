----------------------------- MODULE Definitions -----------------------------
(* What a NXDL file declares, and how it is shown.                              *)
(* A definition is loaded item by item: groups, then fields, then links, each    *)
(* in the order of the file; items which share a name are told apart by numbers. *)
EXTENDS Schema

(* ------------------------------------------------------------- names *)
GroupName(n) == IF Has(n, "name") THEN Get(n, "name") ELSE SubSeq(Get(n, "type"), 3, Len(Get(n, "type")))

RECURSIVE Free(_, _, _)
Free(name, taken, i) == IF name \o ToString(i) \in taken THEN Free(name, taken, i + 1) ELSE name \o ToString(i)
Unique(name, taken) == IF name \in taken THEN Free(name, taken, 1) ELSE name

\* items with the names wanted, in order, get these names
RECURSIVE Named(_, _)
Named(wanted, taken) ==
  IF Len(wanted) = 0 THEN <<>>
  ELSE LET u == Unique(wanted[1], taken) IN <<u>> \o Named(Tail(wanted), taken \cup {u})

(* --------------------------------------------------------- definitions *)
Enumeration(n) == LET v(x) == Get(x, "value")
                      items(e) == Map(v, Kids(e, "item"))
                  IN FlatMap(items, Kids(n, "enumeration"))

Application(cat) == cat = "applications"
DefaultOf(X, type, att) == LET s == { x \in Summary(X, type) : x.n = att } IN IF s = {} THEN <<>> ELSE (CHOOSE x \in s : TRUE).default
\* items of application definitions are required unless they say otherwise
Optional(X, cat) == IF Application(cat) THEN <<"false">> ELSE DefaultOf(X, "attributeType", "optional")
MinOccurs(X, cat, type) == IF Application(cat) THEN <<"1">> ELSE DefaultOf(X, type, "minOccurs")

Attribute(X, cat, n) == [n |-> Get(n, "name"), enum |-> Enumeration(n), opt |-> Optional(X, cat)]
Attributes(X, cat, n) == { Attribute(X, cat, x) : x \in SeqRange(Kids(n, "attribute")) }

\* of the dimensions with the same index the last one counts
Dim(d) == [index |-> Get(d, "index"), value |-> Get(d, "value"), ref |-> Get(d, "ref"),
           refindex |-> Get(d, "refindex"), incr |-> Get(d, "incr")]
Dims(n) ==
  LET q == Map(Dim, Kids(n, "dim"))
  IN { q[i] : i \in { i \in DOMAIN q : \A j \in DOMAIN q : q[j].index = q[i].index => j <= i } }
Dimensions(n) ==
  LET q == Kids(n, "dimensions")
  IN IF Len(q) = 0 THEN <<>> ELSE << [rank |-> Get(q[1], "rank"), dims |-> Dims(q[1])] >>

RECURSIVE Content(_, _, _)
Content(X, cat, n) ==
  LET gs == Kids(n, "group")
      fs == Kids(n, "field")
      ls == Kids(n, "link")
      name(x) == IF x.t = "group" THEN GroupName(x) ELSE Get(x, "name")
      names == Named(Map(name, gs \o fs \o ls), {})
      g(i) == [n |-> names[i], min |-> MinOccurs(X, cat, "groupType"),
               extra |-> { <<p[1], p[2]>> : p \in { p \in SeqRange(gs[i].a) : p[1] \notin {"name", "type"} } },
               has |-> Content(X, cat, gs[i])]
      f(i) == [n |-> names[Len(gs) + i], min |-> MinOccurs(X, cat, "fieldType"), enum |-> Enumeration(fs[i]),
               attrs |-> Attributes(X, cat, fs[i]), dims |-> Dimensions(fs[i])]
      l(i) == [n |-> names[Len(gs) + Len(fs) + i], target |-> Get(ls[i], "target")]
  IN [attrs |-> Attributes(X, cat, n),
      groups |-> { g(i) : i \in DOMAIN gs }, fields |-> { f(i) : i \in DOMAIN fs }, links |-> { l(i) : i \in DOMAIN ls }]

Symbols(n) ==
  LET v(x) == Get(x, "name")
      named(s) == Map(v, SelectSeq(Kids(s, "symbol"), LAMBDA x : Has(x, "name")))
  IN FlatMap(named, Kids(n, "symbols"))

Definition(X, cat, root) == [symbols |-> Symbols(root), has |-> Content(X, cat, root)]

\* two attributes of one name are an error, wherever they are
RECURSIVE Ambiguous(_)
Ambiguous(n) ==
  LET q == Kids(n, "attribute")
  IN \/ \E i, j \in DOMAIN q : i # j /\ Get(q[i], "name") = Get(q[j], "name")
     \/ \E x \in SeqRange(Kids(n, "group") \o Kids(n, "field")) : Ambiguous(x)

(* ------------------------------------------------------------- as text *)
RECURSIVE Indent(_)
Indent(k) == IF k = 0 THEN "" ELSE "  " \o Indent(k - 1)

\* q in the order of rank[key], items with the same rank in their order
RECURSIVE Insert(_, _), Sorted(_)
Insert(q, x) == IF Len(q) = 0 THEN <<x>> ELSE IF x.r < q[1].r THEN <<x>> \o q ELSE <<q[1]>> \o Insert(Tail(q), x)
Sorted(q) == IF Len(q) = 0 THEN <<>> ELSE Insert(Sorted(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
SortBy(q, key, rank) ==
  LET s == Sorted([ i \in DOMAIN q |-> [x |-> q[i], r |-> rank[Get(q[i], key)]] ])
  IN [ i \in DOMAIN s |-> s[i].x ]

AttLine(k, n) == Indent(k) \o "@" \o Get(n, "name")
LinkLine(k, n) == Indent(k) \o Get(n, "name") \o " --> " \o Get(n, "target")
DimText(n) == LET v(d) == Get(d, "value") IN "[" \o Join(Map(v, Kids(n, "dim")), ",") \o "]"
FieldLines(k, n) ==
  LET line(x) == AttLine(k + 1, x)
      type == IF Has(n, "type")
              THEN Get(n, "type") \o (IF Kids(n, "dimensions") = <<>> THEN "" ELSE DimText(Kids(n, "dimensions")[1]))
              ELSE "NX_CHAR"
  IN << Indent(k) \o Get(n, "name") \o ":" \o type >> \o Map(line, Kids(n, "attribute"))

RECURSIVE GroupLines(_, _, _), InnerLines(_, _, _)
InnerLines(k, n, rank) ==
  LET a(x) == AttLine(k, x)
      f(x) == FieldLines(k, x)
      l(x) == LinkLine(k, x)
      g(x) == GroupLines(k, x, rank)
  IN Map(a, Kids(n, "attribute")) \o FlatMap(f, SortBy(Kids(n, "field"), "name", rank))
     \o Map(l, SortBy(Kids(n, "link"), "name", rank)) \o FlatMap(g, SortBy(Kids(n, "group"), "type", rank))
GroupLines(k, n, rank) ==
  << Indent(k) \o (IF Has(n, "name") THEN Get(n, "name") \o ":" ELSE "") \o Get(n, "type") >> \o InnerLines(k + 1, n, rank)

KindText(cat) == CASE cat = "base" -> "base class" [] cat = "application" -> "application definition"
                   [] cat = "contributed" -> "contributed definition" [] OTHER -> ""
Count(n, type) == Cardinality({ i \in DOMAIN Kids(n, "group") : Get(Kids(n, "group")[i], "type") = type })
\* what the definition is laid over (the attributes are shown twice then)
Overlay(n, rank) ==
  LET a(x) == AttLine(1, x)
      atts == Map(a, Kids(n, "attribute"))
  IN IF Get(n, "category") = "base" THEN <<>>
     ELSE IF Count(n, "NXentry") = 1 THEN << "  (overlays NXentry)" >> \o atts
     ELSE IF Count(n, "NXsubentry") = 1 THEN << "  (overlays NXsubentry)" >> \o atts
     ELSE << "  (base class definition, NXentry or NXsubentry not found)" >>
DefinitionLines(n, rank) ==
  << Get(n, "name") \o " (" \o KindText(Get(n, "category")) \o ")" >> \o Overlay(n, rank) \o InnerLines(1, n, rank)

FolderOf(category) == CASE category = "base" -> "base_classes" [] category = "application" -> "applications"
                        [] category = "contributed" -> "contributed_definitions" [] OTHER -> ""
=============================================================================
