------------------------------- MODULE Schema -------------------------------
(* The XML Schema of the NXDL language (nxdl.xsd), as far as it is used there.     *)
(* A node is [t (tag), a (attributes: sequence of <<name, value, value with blanks *)
(* collapsed>>), c (child elements), x (has text other than blanks)]; tags of the  *)
(* own language have no prefix.  X is the sequence of the top nodes of a schema    *)
(* and of what it includes.                                                        *)
EXTENDS Text, TLC

Atts(n, k) == SelectSeq(n.a, LAMBDA p : p[1] = k)
Has(n, k) == Len(Atts(n, k)) > 0
Get(n, k) == IF Has(n, k) THEN Atts(n, k)[1][2] ELSE ""
Or(n, k, v) == IF Has(n, k) THEN Get(n, k) ELSE v
Kids(n, tag) == SelectSeq(n.c, LAMBDA x : x.t = tag)
Local(ref) == LET p == Split(ref, ":") IN p[Len(p)]
Prefix(ref) == LET p == Split(ref, ":") IN IF Len(p) = 1 THEN "" ELSE p[1]
Builtin(ref) == Prefix(ref) = "xs"
IsTop(X, tag, name) == \E i \in DOMAIN X : X[i].t = tag /\ Get(X[i], "name") = name
TopNode(X, tag, name) == X[CHOOSE i \in DOMAIN X : X[i].t = tag /\ Get(X[i], "name") = name]

Map(F(_), q) == [ i \in DOMAIN q |-> F(q[i]) ]
RECURSIVE Concat(_)
Concat(qq) == IF Len(qq) = 0 THEN <<>> ELSE qq[1] \o Concat(Tail(qq))
\* q with each element e replaced by the sequence F(e)
FlatMap(F(_), q) == Concat(Map(F, q))

Extension(t) == LET cc == Kids(t, "complexContent") IN IF Len(cc) = 0 THEN <<>> ELSE Kids(cc[1], "extension")
\* where the own content of a type is written
Body(t) == IF Extension(t) = <<>> THEN t ELSE Extension(t)[1]

(* --------------------------------------------------------- attributes *)
RECURSIVE AttrDecls(_, _)
AttrDecls(X, t) ==
  LET group(g) == Kids(TopNode(X, "attributeGroup", Local(Get(g, "ref"))), "attribute")
      base == IF Extension(t) = <<>> THEN <<>> ELSE AttrDecls(X, TopNode(X, "complexType", Local(Get(Body(t), "base"))))
  IN base \o Kids(Body(t), "attribute") \o FlatMap(group, Kids(Body(t), "attributeGroup"))

(* ------------------------------------------------------ simple types *)
Digital(s) == Len(s) > 0 /\ AllIn(s, 1, Digits)
Unsigned(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
Negative(s) == Len(s) > 0 /\ Ch(s, 1) = "-"
Zero(s) == AllIn(s, 1, {"0"})
BuiltinOK(name, w) ==
  CASE name \in {"string", "token"} -> TRUE
    [] name = "boolean" -> w \in {"true", "false", "0", "1"}
    [] name = "integer" -> Digital(Unsigned(w))
    [] name = "nonNegativeInteger" -> Digital(Unsigned(w)) /\ (Negative(w) => Zero(Unsigned(w)))
    [] name = "positiveInteger" -> Digital(Unsigned(w)) /\ ~Negative(w) /\ ~Zero(Unsigned(w))
    [] OTHER -> TRUE          \* (none of these is used where it decides)

Restriction(st) == Kids(st, "restriction")[1]
\* are blanks at the ends, and several in a row, of no significance?
RECURSIVE Collapses(_, _)
Collapses(X, ref) ==
  IF Builtin(ref) THEN Local(ref) # "string"
  ELSE LET st == TopNode(X, "simpleType", Local(ref))
       IN IF Len(Kids(st, "restriction")) = 0 THEN TRUE ELSE Collapses(X, Get(Restriction(st), "base"))

\* P: the patterns and what they match, as a set of <<pattern, text>>
RECURSIVE RefOK(_, _, _, _, _), SimpleOK(_, _, _, _, _)
RefOK(X, P, ref, v, w) ==
  IF Builtin(ref) THEN BuiltinOK(Local(ref), w)
  ELSE SimpleOK(X, P, TopNode(X, "simpleType", Local(ref)), v, w)
SimpleOK(X, P, st, v, w) ==
  IF Len(Kids(st, "union")) > 0
  THEN LET u == Kids(st, "union")[1]
           members == SelectSeq(Split(Get(u, "memberTypes"), " "), LAMBDA x : x # "")
       IN \/ \E i \in DOMAIN members : RefOK(X, P, members[i], v, w)
          \/ \E i \in DOMAIN Kids(u, "simpleType") : SimpleOK(X, P, Kids(u, "simpleType")[i], v, w)
  ELSE IF Len(Kids(st, "list")) > 0
  THEN LET items == SelectSeq(Split(w, " "), LAMBDA x : x # "")
       IN \A i \in DOMAIN items : RefOK(X, P, Get(Kids(st, "list")[1], "itemType"), items[i], items[i])
  ELSE LET r == Restriction(st)
           val == IF Collapses(X, Get(r, "base")) THEN w ELSE v
           enums == { Get(x, "value") : x \in SeqRange(Kids(r, "enumeration")) }
           pats == { Get(x, "value") : x \in SeqRange(Kids(r, "pattern")) }
       IN /\ RefOK(X, P, Get(r, "base"), v, w)
          /\ (enums # {} => val \in enums)
          /\ (pats # {} => \E p \in pats : <<p, val>> \in P)
          /\ \A x \in SeqRange(Kids(r, "maxLength")) : Len(val) <= Number(Get(x, "value"))

AttrOK(X, P, d, v, w) ==
  IF Has(d, "type") THEN RefOK(X, P, Get(d, "type"), v, w)
  ELSE IF Len(Kids(d, "simpleType")) > 0 THEN SimpleOK(X, P, Kids(d, "simpleType")[1], v, w)
  ELSE TRUE

(* ---------------------------------------------------------- content *)
IsParticle(x) == x.t \in {"element", "any", "group", "sequence", "choice"}
Particles(n) == SelectSeq(n.c, IsParticle)
GroupOf(X, p) == TopNode(X, "group", Local(Get(p, "ref")))

\* the positions in c where a match of one p, all of ps one after the other, or p as often as it may be, can end
RECURSIVE One(_, _, _, _), InOrder(_, _, _, _), Times(_, _, _, _, _, _)
One(X, p, c, i) ==
  CASE p.t = "element" -> IF i < Len(c) /\ c[i + 1].t = Get(p, "name") THEN {i + 1} ELSE {}
    [] p.t = "any" -> IF i < Len(c) THEN {i + 1} ELSE {}
    [] p.t = "group" -> InOrder(X, Particles(GroupOf(X, p)), c, {i})
    [] p.t = "sequence" -> InOrder(X, Particles(p), c, {i})
    [] p.t = "choice" -> UNION { Times(X, Particles(p)[k], c, {i}, 0, {}) : k \in DOMAIN Particles(p) }
InOrder(X, ps, c, S) ==
  IF Len(ps) = 0 \/ S = {} THEN S ELSE InOrder(X, Tail(ps), c, Times(X, ps[1], c, S, 0, {}))
Times(X, p, c, S, n, seen) ==
  LET min == Number(Or(p, "minOccurs", "1"))
      max == Or(p, "maxOccurs", "1")
      enough == IF n >= min THEN S ELSE {}
      more == (max = "unbounded" \/ n < Number(max))
      S2 == (UNION { One(X, p, c, i) : i \in S }) \ (IF n >= min THEN seen \cup S ELSE {})
  IN IF ~more \/ S2 = {} THEN enough ELSE enough \cup Times(X, p, c, S2, n + 1, seen \cup enough)

\* all that a type may have: its base first
RECURSIVE AllParticles(_, _)
AllParticles(X, t) ==
  (IF Extension(t) = <<>> THEN <<>> ELSE AllParticles(X, TopNode(X, "complexType", Local(Get(Body(t), "base")))))
  \o Particles(Body(t))

\* the declarations of elements in these particles
RECURSIVE Declared(_, _)
Declared(X, ps) ==
  LET of(p) == CASE p.t = "element" -> <<p>>
                 [] p.t = "group" -> Declared(X, Particles(GroupOf(X, p)))
                 [] p.t \in {"sequence", "choice"} -> Declared(X, Particles(p))
                 [] OTHER -> <<>>
  IN FlatMap(of, ps)

NoType == [t |-> "anyType", a |-> <<>>, c |-> <<>>, x |-> FALSE]
TypeOf(X, d) ==
  IF Has(d, "type") THEN TopNode(X, "complexType", Local(Get(d, "type")))
  ELSE IF Len(Kids(d, "complexType")) > 0 THEN Kids(d, "complexType")[1] ELSE NoType

AttrsValid(X, P, n, t) ==
  LET ds == AttrDecls(X, t)
      names == { Get(d, "name") : d \in SeqRange(ds) }
      known(i) == \E d \in SeqRange(ds) : Get(d, "name") = n.a[i][1] /\ AttrOK(X, P, d, n.a[i][2], n.a[i][3])
  IN /\ \A i \in DOMAIN n.a : StartsWith(n.a[i][1], "xsi:") \/ known(i)
     /\ \A d \in SeqRange(ds) : Get(d, "use") = "required" => Has(n, Get(d, "name"))

RECURSIVE NodeValid(_, _, _, _)
NodeValid(X, P, n, t) ==
  \/ t = NoType
  \/ /\ AttrsValid(X, P, n, t)
     /\ Len(n.c) \in InOrder(X, AllParticles(X, t), n.c, {0})
     /\ (n.x => Get(t, "mixed") = "true")
     /\ LET ds == Declared(X, AllParticles(X, t))
        IN \A i \in DOMAIN n.c :
             \A d \in { ds[k] : k \in { k \in DOMAIN ds : Get(ds[k], "name") = n.c[i].t } } : NodeValid(X, P, n.c[i], TypeOf(X, d))

\* a document with this root is valid
Valid(X, P, root) ==
  /\ IsTop(X, "element", root.t)
  /\ NodeValid(X, P, root, TypeOf(X, TopNode(X, "element", root.t)))

(* ------------------------------------------------- summary of the language *)
\* patterns and length of the named type ref, with those of its base
RECURSIVE PatternsOf(_, _), LengthOf(_, _)
PatternsOf(X, ref) ==
  IF Builtin(ref) \/ ~IsTop(X, "simpleType", Local(ref)) THEN {}
  ELSE LET st == TopNode(X, "simpleType", Local(ref))
       IN IF Len(Kids(st, "restriction")) = 0 THEN {}
          ELSE { Get(x, "value") : x \in SeqRange(Kids(Restriction(st), "pattern")) } \cup PatternsOf(X, Get(Restriction(st), "base"))
LengthOf(X, ref) ==
  IF Builtin(ref) \/ ~IsTop(X, "simpleType", Local(ref)) THEN ""
  ELSE LET st == TopNode(X, "simpleType", Local(ref))
       IN IF Len(Kids(st, "restriction")) = 0 THEN ""
          ELSE LET own == Kids(Restriction(st), "maxLength")
               IN IF Len(own) > 0 THEN Get(own[1], "value") ELSE LengthOf(X, Get(Restriction(st), "base"))

Default(d) == IF Has(d, "default") THEN <<Get(d, "default")>> ELSE <<>>
Summary(X, typeName) ==
  { [n |-> Get(d, "name"), required |-> Get(d, "use") = "required", default |-> Default(d)]
    : d \in SeqRange(AttrDecls(X, TopNode(X, "complexType", typeName))) }
=============================================================================
