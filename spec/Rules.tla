-------------------------------- MODULE Rules --------------------------------
(* The findings which NeXus validation owes to every item of a data file.        *)
(* A finding is [a |-> address, t |-> test, s |-> status, k |-> key, n |-> how    *)
(* often]; the key tells apart findings of one test at one address.               *)
EXTENDS H5, Names, Nxdl, FiniteSetsExt

F(a, t, s, k) == [a |-> a, t |-> t, s |-> s, k |-> k, n |-> 1]
TF(b) == IF b THEN "OK" ELSE "ERROR"

(* ------------------------------------------------------------ item names *)
\* an object with a @target that is not its own address is a link to the target
LinksElsewhere(f, n, a) ==
  HasAttr(f, n, "target") /\ IsText(Attr(f, n, "target")) /\ Attr(f, n, "target").s # a

IsAttribute(it) == it.at > 0 /\ HasAddress(it)
AttributeLike(it) == HasText(it.cp, "@")    \* also an object with "@" in its name or that of a class above it

NameFindings(f, it) ==
  IF it.a = "/" THEN {}
  ELSE IF IsAttribute(it) /\ it.nm = "NX_class"
  THEN { F(it.a, "validItemName",
           TF(IsText(Value(f, it)) /\ ClassName(Value(f, it).s)), "") }
  ELSE IF AttributeLike(it)
  THEN IF it.at > 0 /\ LinksElsewhere(f, it.nd, it.pa)
       THEN {}     \* names are validated where the item really is
       ELSE { F(it.a, "validItemName", TF(ItemName(it.nm)), "") }
  ELSE IF IsObject(it)
  THEN { F(it.a, "validItemName",
           IF HasText(it.cp, "NXcollection") THEN "WARN" ELSE NameGrade(it.nm), "") }
  ELSE {}          \* attribute of non-NeXus content

(* ------------------------------------------------------------ attributes *)
AxesFindings(f, it) ==
  LET v == Value(f, it)
      where == IF IsGroup(f, it.nd) THEN it.nd ELSE Last(it.up)
      keys == { [k |-> v.l[i].k, s |-> IF v.l[i].k = "t" THEN v.l[i].s ELSE "?"]
                  : i \in DOMAIN v.l }
      Count(x) == Cardinality({ i \in DOMAIN v.l :
                     v.l[i].k = x.k /\ (x.k = "t" => v.l[i].s = x.s) })
      One(x) ==
        { [F(it.a, "valid name @axes", IF x.k = "t" THEN NameGrade(x.s) ELSE "ERROR", x.s)
             EXCEPT !.n = Count(x)],
          [F(it.a, "axes exists", TF(x.k = "t" /\ Resolve(f, where, x.s) # 0), x.s)
             EXCEPT !.n = Count(x)] }
  IN UNION { One(x) : x \in keys } \cup { F(it.a, "attribute value", "TODO", "") }

SignalFindings(f, it) ==
  LET v == Value(f, it)
  IN IF IsData(f, it.nd)
     THEN { F(it.a, "attribute value",
              IF v.k \in {"text", "other"} /\ NumberOne(v.s) THEN "OK" ELSE "NOTE", "") }
     ELSE IF IsGroup(f, it.nd) /\ it.pa # "/"
     THEN { F(it.a, "valid name @signal", IF IsText(v) THEN NameGrade(v.s) ELSE "ERROR", ""),
            F(it.a, "attribute value", TF(IsText(v) /\ Exists(f, it.nd, v.s)), "") }
     ELSE { F(it.a, "attribute value", "TODO", "") }

TargetOK(f, v) ==
  /\ IsText(v) /\ StartsWith(v.s, "/")
  /\ LET parts == Tail(Split(v.s, "/"))
     IN \A i \in DOMAIN parts :
           ItemName(parts[i]) /\ Exists(f, 1, "/" \o Join(SubSeq(parts, 1, i), "/"))

AttributeFindings(f, C, it) ==
  IF it.at = 0
  THEN IF HasText(it.a, "@")       \* object with "@" in its name, or the name of a group above it
       THEN { F(it.a, "attribute value", "TODO", "") } ELSE {}
  ELSE IF ~HasAddress(it) THEN {}
  ELSE CASE it.nm = "NX_class" ->
              { F(it.a, "attribute value",
                  TF(/\ IsText(Value(f, it)) /\ Value(f, it).s \in DOMAIN C
                     /\ BaseClass(C[Value(f, it).s])), "") }
         [] it.nm = "target" ->
              { F(it.a, "attribute value", TF(TargetOK(f, Value(f, it))), "") }
         [] it.nm = "signal" -> SignalFindings(f, it)
         [] it.nm = "axes"   -> AxesFindings(f, it)
         [] OTHER -> { F(it.a, "attribute value", "TODO", "") }

(* ------------------------------------------------- groups & base classes *)
GroupAttribute(f, cat, it, cls, d, at) ==
  LET k == at.n
      v == at.v
      a == it.a \o "@" \o k
      known == k \in AttrNames(d.raw)
      enum == AttrEnum(d.raw, k)
      Child == { F(a, "value of @" \o k, TF(IsText(v) /\ Exists(f, it.nd, v.s)), "") }
  IN { F(a, "known attribute", "OK", IF known \/ k = "NX_class" THEN "known" ELSE "unknown") }
     \cup IF ~known THEN {}
          ELSE (IF enum = <<>> THEN {}
                ELSE { F(a, "attribute value enumeration",
                         TF(IsText(v) /\ v.s \in SeqRange(enum)), "") })
               \cup
               (CASE k = "default" /\ it.cp \in {"", "/NXentry", "/NXentry/NXsubentry"} -> Child
                  [] k = "signal" -> Child
                  [] k = "target" ->
                       { F(a, "value of @target",
                           TF(IsText(v) /\ v.s # "" /\ \E i \in DOMAIN cat : cat[i].a = v.s), "") }
                  [] k = "axes" -> {}
                  [] OTHER -> { F(a, "value of @" \o k, "TODO", "") })

Reviewed(cat, a) == \E i \in DOMAIN cat : cat[i].a = a

GroupFindings(f, C, cat, it) ==
  IF ~(IsObject(it) /\ IsGroup(f, it.nd)) THEN {}
  ELSE IF it.cp = NonNeXus THEN { F(it.a, "NeXus_group", "OK", "") }
  ELSE
    LET cls == IF it.cp = "" THEN "NXroot" ELSE ClassText(f, it.nd)
        known == cls \in DOMAIN C
    IN { F(it.a, "known NXDL", TF(known), cls) }
       \cup
       (IF ~known THEN { F(it.a, "NeXus base class", "ERROR", "") }
        ELSE
        LET d == C[cls]
            lks == Obj(f, it.nd).links
            Kids == { i \in DOMAIN lks :
                        lks[i].to # 0 /\ ~(it.cyc) /\ Reviewed(cat, Under(it.a, lks[i].n)) }
            Kid(i) ==
              LET a == Under(it.a, lks[i].n)
                  n == lks[i].to
              IN IF IsData(f, n)
                 THEN F(a, "field in base class", "OK",
                        IF lks[i].n \in FieldNames(d) THEN "defined" ELSE "not defined")
                 ELSE IF IsGroup(f, n)
                 THEN F(a, "group in base class", "OK",
                        IF lks[i].n \in GroupNames(d) THEN "defined" ELSE "not defined")
                 ELSE F(a, "unhandled: group_items_in_base_class", "TODO", "")
            Presence(t, names) ==
              { F(it.a, t, IF HasLink(f, it.nd, x) THEN "OK" ELSE "OPTIONAL", x) : x \in names }
        IN { F(it.a, "NeXus base class", TF(UsedAsBaseClass(d)), ""),
             F(it.a, "NeXus base class", "TODO", "") }
           \cup UNION { GroupAttribute(f, cat, it, cls, d, Obj(f, it.nd).at[i])
                          : i \in DOMAIN Obj(f, it.nd).at }
           \cup { Kid(i) : i \in Kids }
           \cup Presence("NXDL field in data file", FieldNames(d))
           \cup Presence("NXDL group in data file", GroupNames(d)))

(* ---------------------------------------------- application definitions *)
FirstValue(f, n) ==
  IF IsData(f, n) /\ Obj(f, n).fv.has THEN Obj(f, n).fv.s ELSE "None"

ParentAddress(a) ==
  LET q == SelectSeq(Split(a, "/"), LAMBDA x : x # "")
  IN IF Len(q) < 2 THEN "/" ELSE "/" \o Join(Front(q), "/")

ApplicationDefinitionOf(f, C, it) ==
  LET g == Last(it.up)
      a == ParentAddress(it.a)
      name == FirstValue(f, Follow(f, g, "definition"))
      known == name \in DOMAIN C
  IN { F(a, "known NXDL", TF(known), name) }
     \cup
     (IF ~known THEN {}
      ELSE
      LET d == C[name]
          FieldChecks(x) ==
            LET o == Follow(f, g, x.n)
                b == IF o = 0 THEN a ELSE Under(a, x.n)
            IN { F(b, "NXDL field", TF(o # 0), x.n) }
               \cup (IF o # 0 /\ x.raw.en # <<>>
                     THEN { F(b, "NXDL field enumerations",
                              TF(/\ IsData(f, o) /\ Obj(f, o).fv.has
                                 /\ Obj(f, o).fv.s \in SeqRange(x.raw.en)), x.n) }
                     ELSE {})
      IN { F(a, "NeXus application definition",
             TF(d.cat \in {"applications", "contributed_definitions"}), ""),
           F(a, "NeXus application definition", "TODO", "") }
         \cup (IF Len(d.in.groups) = 0 THEN {}
               ELSE UNION { FieldChecks(d.in.groups[1].in.fields[i])
                              : i \in DOMAIN d.in.groups[1].in.fields }))

IsDeclaration(it) ==
  it.at = 0 /\ it.cp \in {"/NXentry/definition", "/NXentry/NXsubentry/definition"}

ApplicationDefinitionFindings(f, C, it) ==
  IF IsDeclaration(it) THEN ApplicationDefinitionOf(f, C, it) ELSE {}

(* --------------------------------------------------------- default plot *)
ObjectAt(cat, a) == { i \in DOMAIN cat : cat[i].at = 0 /\ cat[i].a = a }

PointsAt(f, cat, i, attr, target) ==
  \* does the attribute of the group, item i, name the item at the target address?
  LET n == cat[i].nd
  IN /\ HasAttr(f, n, attr)
     /\ Under(cat[i].a, Attr(f, n, attr).s) = target
     /\ ObjectAt(cat, target) # {}

\* one candidate, an attribute at /NXentry/NXdata@signal
Candidate(f, cat, it) ==
  LET entry  == ParentAddress(it.pa)
      root   == ParentAddress(entry)
      signal == Under(it.pa, Value(f, it).s)
      o      == ObjectAt(cat, signal)
      named  == o # {}
      field  == named /\ IsData(f, cat[CHOOSE i \in o : TRUE].nd)
      path   == /\ entry # "/"
                /\ \E i \in ObjectAt(cat, root) : PointsAt(f, cat, i, "default", entry)
                /\ \E i \in ObjectAt(cat, entry) : PointsAt(f, cat, i, "default", it.pa)
  IN [it |-> it, signal |-> signal, named |-> named, field |-> field,
      niac |-> field /\ path]

V3 == "NeXus default plot v3"
V2 == "NeXus default plot v2"

PlotV3(f, cat) ==
  LET cand == [ i \in DOMAIN cat |->
                  IF cat[i].at > 0 /\ cat[i].cp = "/NXentry/NXdata@signal"
                  THEN << Candidate(f, cat, cat[i]) >> ELSE <<>> ]
      all  == FlattenSeq(cand)
      bad  == { i \in DOMAIN all : ~all[i].named }
      upto == IF bad = {} THEN all ELSE SubSeq(all, 1, Min(bad))
      ok   == { i \in DOMAIN upto : upto[i].field }
      niac == { i \in DOMAIN upto : upto[i].niac }
      one  == bad = {} /\ Cardinality(niac) = 1
  IN [ found |->
         { F(upto[i].it.a, V3 \o ", NXdata@signal", "OK", "") : i \in ok }
         \cup (IF bad = {} THEN {}
               ELSE { F(upto[Min(bad)].it.a, V3 \o ", NXdata@signal", "ERROR", "") })
         \cup (IF one THEN { F(upto[CHOOSE i \in niac : TRUE].it.a, V3 \o " NIAC2014", "OK", "") } ELSE {}),
       addr |->
         IF bad # {} THEN ""
         ELSE IF one THEN upto[CHOOSE i \in niac : TRUE].it.a
         ELSE IF ok # {} THEN upto[Max(ok)].signal ELSE "" ]

\* items marked with @signal, in the order in which their class paths appear
PlotV2(f, cat) ==
  LET marks == { i \in DOMAIN cat : /\ cat[i].at > 0 /\ cat[i].nm = "signal"
                                    /\ HasAddress(cat[i]) /\ IsData(f, cat[i].nd) }
      First(i) == Min({ j \in DOMAIN cat : cat[j].cp = cat[i].cp })
      order == SetToSortSeq(marks, LAMBDA x, y :
                 First(x) < First(y) \/ (First(x) = First(y) /\ x < y))
      IsOne(i) == Value(f, cat[i]).s = "1" /\ Value(f, cat[i]).k # "list"
      ones == SelectSeq(order, IsOne)
      Group(i) == ParentAddress(cat[i].pa)
      InGroup(i) == { j \in DOMAIN ones : Group(ones[j]) = Group(i) }
      \* groups in the order of their first marked field
      heads == SelectSeq(ones, LAMBDA i : \A j \in InGroup(i) :
                  ones[j] = i \/ \E m \in DOMAIN ones : ones[m] = i /\ m < j)
      singles == SelectSeq(heads, LAMBDA i : Cardinality(InGroup(i)) = 1)
  IN [ found |->
         { F(cat[i].a, V2 \o ", @signal=1", "OK", "") : i \in SeqRange(ones) }
         \cup { F(cat[i].a, V2 \o ", @signal!=1", "WARN", "") : i \in marks \ SeqRange(ones) }
         \cup { F(cat[i].a, V2, "OK", "") : i \in SeqRange(singles) }
         \cup { F(Group(i), V2 \o ", multiple @signal=1", "ERROR", "")
                  : i \in SeqRange(heads) \ SeqRange(singles) },
       addr |-> IF singles = <<>> THEN "" ELSE cat[Last(singles)].pa ]

\* is a default plot demanded?  @minOccurs of NXdata in NXentry (when there is an NXentry)
PlotDemanded(f, C, cat) ==
  IF \E i \in DOMAIN cat : /\ cat[i].at = 0 /\ cat[i].a # "/" /\ cat[i].cp # NonNeXus
                           /\ IsGroup(f, cat[i].nd) /\ ClassText(f, cat[i].nd) = "NXentry"
  THEN LET xa == GroupOf(C["NXentry"], "data").raw.xa
       IN "minOccurs" \in DOMAIN xa /\ xa["minOccurs"] # "0"
  ELSE TRUE

PlotFindings(f, C, cat) ==
  LET three == PlotV3(f, cat)
      two   == PlotV2(f, cat)
  IN IF three.addr # ""
     THEN three.found \cup { F("/", "NeXus default plot", "OK", "v3: " \o three.addr) }
     ELSE three.found \cup two.found \cup
          { IF two.addr # "" THEN F("/", "NeXus default plot", "OK", "v2: " \o two.addr)
            ELSE F("/", "NeXus default plot", IF PlotDemanded(f, C, cat) THEN "ERROR" ELSE "NOTE", "") }
==============================================================================
