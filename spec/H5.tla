-------------------------------- MODULE H5 --------------------------------
(* An HDF5 file is a graph of objects.  f.nodes is a sequence of objects,    *)
(* object 1 is the root group.                                               *)
(*   k      "g" group, "d" dataset, "t" named datatype                        *)
(*   links  (groups) in the order of HDF5: [n |-> name, to |-> object], with   *)
(*          to = 0 when the target of a soft or external link is unavailable   *)
(*   at     attributes, sorted by name: [n |-> name, v |-> value]             *)
(*   root   the root group of the file which holds this object, 0 if unknown   *)
(*   fv     [has |-> BOOLEAN, s |-> text] text of the first value of a dataset *)
(* A value is [k, s, l]: k is "text", "list" (of text), "none" (empty) or      *)
(* "other"; s is the value as text; l its elements, each [k |-> "t"/"o", s].   *)
EXTENDS Text, SequencesExt

NonNeXus == "non-NeXus content"

Obj(f, n) == f.nodes[n]
IsGroup(f, n) == n # 0 /\ Obj(f, n).k = "g"
IsData(f, n)  == n # 0 /\ Obj(f, n).k = "d"

LinkIx(f, n, name) == { i \in DOMAIN Obj(f, n).links : Obj(f, n).links[i].n = name }
HasLink(f, n, name) == IsGroup(f, n) /\ LinkIx(f, n, name) # {}
Follow(f, n, name) ==
  IF HasLink(f, n, name) THEN Obj(f, n).links[CHOOSE i \in LinkIx(f, n, name) : TRUE].to ELSE 0

AttrIx(f, n, name) == { i \in DOMAIN Obj(f, n).at : Obj(f, n).at[i].n = name }
HasAttr(f, n, name) == n # 0 /\ AttrIx(f, n, name) # {}
Attr(f, n, name) == Obj(f, n).at[CHOOSE i \in AttrIx(f, n, name) : TRUE].v

IsText(v) == v.k = "text"

(* ---- HDF5 path names, relative to group n or absolute -------------------- *)
PathParts(p) == SelectSeq(Split(p, "/"), LAMBDA x : x # "" /\ x # ".")
PathStart(f, n, p) == IF StartsWith(p, "/") THEN Obj(f, n).root ELSE n

RECURSIVE Walk(_, _, _)
Walk(f, n, parts) ==
  IF n = 0 \/ parts = <<>> THEN n ELSE Walk(f, Follow(f, n, Head(parts)), Tail(parts))

\* the object at path p, 0 if there is none
Resolve(f, n, p) == IF p = "" THEN 0 ELSE Walk(f, PathStart(f, n, p), PathParts(p))

\* is there a link (whether or not its target is available) at path p?
Exists(f, n, p) ==
  IF p = "" THEN FALSE
  ELSE LET q == PathParts(p)
           s == PathStart(f, n, p)
           raw == SelectSeq(Split(p, "/"), LAMBDA x : x # "")
       IN IF q = <<>> THEN s # 0
          ELSE IF Last(raw) = "." THEN IsGroup(f, Walk(f, s, q))
          ELSE HasLink(f, Walk(f, s, Front(q)), Last(q))

(* ---- the NeXus class of a group ------------------------------------------ *)
ClassText(f, n) ==
  IF HasAttr(f, n, "NX_class") /\ IsText(Attr(f, n, "NX_class"))
  THEN Attr(f, n, "NX_class").s ELSE ""
IsNeXusGroup(f, n) == StartsWith(ClassText(f, n), "NX")

(* ---- catalog: the items which the validation must review ----------------- *)
\* address of a child in the file being validated
Under(a, name) == (IF a = "/" THEN "" ELSE a) \o "/" \o name

ChildClassPath(f, cp, n, name) ==
  IF cp = NonNeXus THEN NonNeXus
  ELSE IF IsGroup(f, n)
       THEN IF IsNeXusGroup(f, n) THEN cp \o "/" \o ClassText(f, n) ELSE NonNeXus
       ELSE cp \o "/" \o name

\* an object and its attributes; an attribute of non-NeXus content has no address
ItemsOf(f, n, a, name, cp, up, cyc) ==
  << [a |-> a, nm |-> name, cp |-> cp, nd |-> n, at |-> 0, up |-> up, cyc |-> cyc, pa |-> ""] >>
  \o [ i \in DOMAIN Obj(f, n).at |->
        LET k == Obj(f, n).at[i].n
        IN [a  |-> IF cp = NonNeXus THEN "" ELSE a \o "@" \o k,
            nm |-> k,
            cp |-> IF cp = NonNeXus THEN NonNeXus ELSE cp \o "@" \o k,
            nd |-> n, at |-> i, up |-> up, cyc |-> cyc, pa |-> a] ]

\* up: the groups which contain group n, from the root
RECURSIVE CatalogGroup(_, _, _, _, _, _)
CatalogGroup(f, n, a, name, cp, up) ==
  LET within == Append(up, n)
      Kid(lk) ==
        IF lk.to = 0 THEN <<>>
        ELSE LET ca  == Under(a, lk.n)
                 ccp == ChildClassPath(f, cp, lk.to, lk.n)
                 cyc == \E j \in DOMAIN within : within[j] = lk.to
             IN IF IsGroup(f, lk.to) /\ ~cyc
                THEN CatalogGroup(f, lk.to, ca, lk.n, ccp, within)
                ELSE ItemsOf(f, lk.to, ca, lk.n, ccp, within, cyc)
  IN ItemsOf(f, n, a, name, cp, up, FALSE)
     \o FlattenSeq([ i \in DOMAIN Obj(f, n).links |-> Kid(Obj(f, n).links[i]) ])

Catalog(f) == CatalogGroup(f, 1, "/", "/", "", <<>>)

IsObject(it) == it.at = 0
Value(f, it) == Obj(f, it.nd).at[it.at].v
HasAddress(it) == it.a # ""
============================================================================
