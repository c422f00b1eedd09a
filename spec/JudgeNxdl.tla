------------------------------ MODULE JudgeNxdl ------------------------------
(* Conformance: recorded loads of file sets, verdicts on NXDL files, their trees.  *)
EXTENDS Definitions, Json, IOUtils, SequencesExt
Input == JsonDeserialize(IOEnv.CASES)
Cases == Input.cases
\* the schemas (name -> nodes); they are the same for all cases
Xsds == Input.xsds
VARIABLE ci

Set(q) == { q[i] : i \in DOMAIN q }
clause(n, ok, more) == IF ok THEN {} ELSE { [clause |-> n, more |-> more] }

(* ----------------------------------------------- what a loaded class has *)
AttrOf(a) == [n |-> a.n, enum |-> a.enum, opt |-> a.opt]
Diff(want, got) == [missing |-> SetToSeq(want \ got), extra |-> SetToSeq(got \ want)]
DimsOf(d) == [ i \in DOMAIN d |-> [rank |-> d[i].rank, dims |-> Set(d[i].dims)] ]
\* at: where in the definition
RECURSIVE BadContent(_, _, _, _)
BadContent(at, want, got, deep) ==
  LET ga == Set(got.attrs)
      gf == { [n |-> x.n, min |-> x.min, enum |-> x.enum, attrs |-> Set(x.attrs), dims |-> DimsOf(x.dims)] : x \in Set(got.fields) }
      gl == Set(got.links)
      gg == { [n |-> x.n, min |-> x.min, extra |-> Set(x.extra)] : x \in Set(got.groups) }
      wg == { [n |-> x.n, min |-> x.min, extra |-> x.extra] : x \in want.groups }
      sub(x) == LET y == { y \in Set(got.groups) : y.n = x.n }
                IN IF y = {} THEN {} ELSE BadContent(at \o "/" \o x.n, x.has, (CHOOSE z \in y : TRUE).has, TRUE)
  IN clause("attributes", want.attrs = ga, [at |-> at, diff |-> Diff(want.attrs, ga)])
     \cup clause("fields", want.fields = gf, [at |-> at, diff |-> Diff(want.fields, gf)])
     \cup clause("links", want.links = gl, [at |-> at, diff |-> Diff(want.links, gl)])
     \cup clause("groups", wg = gg, [at |-> at, diff |-> Diff(wg, gg)])
     \cup UNION { sub(x) : x \in want.groups }

BadClass(c) ==
  LET w == Definition(Xsds[c.set], c.cat, c.doc)
      d == { [n |-> x.n, required |-> x.required, default |-> x.default] : x \in Set(c.obs.defaults) }
  IN clause("symbols", w.symbols = c.obs.symbols, [want |-> w.symbols, got |-> c.obs.symbols])
     \cup clause("category", c.obs.category = c.cat, c.obs.category)
     \cup clause("defaults", d = Summary(Xsds[c.set], "definitionType"), Diff(Summary(Xsds[c.set], "definitionType"), d))
     \cup BadContent("", w.has, c.obs.has, TRUE)

(* ------------------------------------------------ the classes of a set *)
Categories == <<"base_classes", "applications", "contributed_definitions">>
\* each NXDL file is a class, named as the file up to the first dot; the last one of a name counts
Title(file) == Split(file, ".")[1]
NxdlFile(f) == EndsWith(f.file, ".nxdl.xml") /\ f.cat \in Set(Categories)
Rank(cat) == CHOOSE i \in 1..3 : Categories[i] = cat
Winner(c, title) ==
  LET q == { f \in Set(c.files) : NxdlFile(f) /\ Title(f.file) = title }
      last == { f \in q : \A g \in q : Rank(g.cat) <= Rank(f.cat) }
  IN { f.cat : f \in last }
\* the reasons why it can not be used, in the order in which the files are read
Unusable(c) == { [cat |-> f.cat, why |-> IF ~f.xml THEN "syntax" ELSE IF ~f.ok THEN "invalid" ELSE "twice"]
                 : f \in { f \in Set(c.files) : NxdlFile(f) /\ (~f.xml \/ ~f.ok \/ f.twice) } }
Missing(c) == { cat \in Set(Categories) : cat \notin Set(c.folders) }
BadSet(c) ==
  LET titles == { Title(f.file) : f \in { f \in Set(c.files) : NxdlFile(f) } }
      got == { x.title : x \in Set(c.obs.classes) }
  IN IF Missing(c) # {}
     THEN clause("refused", c.obs.exc \in {"OSError", "FileNotFound"}, c.obs.exc)
     ELSE IF Unusable(c) = {}
     THEN clause("exception", c.obs.exc = "", c.obs.exc)
          \cup clause("classes", got = titles /\ Len(c.obs.classes) = Cardinality(titles), Diff(titles, got))
          \cup clause("where", \A x \in Set(c.obs.classes) : x.title \in titles => x.cat \in Winner(c, x.title), c.obs.classes)
     ELSE clause("refused", (c.obs.exc = "XMLSyntaxError" /\ \E u \in Unusable(c) : u.why = "syntax")
                         \/ (c.obs.exc = "InvalidNxdlFile" /\ \E u \in Unusable(c) : u.why = "invalid")
                         \/ (c.obs.exc = "KeyError" /\ \E u \in Unusable(c) : u.why = "twice"), c.obs.exc)

(* ------------------------------------------------ what a schema gives *)
TypeNamed == [definition |-> "definitionType", group |-> "groupType", field |-> "fieldType", attribute |-> "attributeType",
              link |-> "linkType", dimensions |-> "dimensionsType"]
PatsOf(X, d) ==
  IF Has(d, "type") THEN PatternsOf(X, Get(d, "type"))
  ELSE UNION { { Get(p, "value") : p \in Set(Kids(Restriction(s), "pattern")) } : s \in { s \in Set(Kids(d, "simpleType")) : Kids(s, "restriction") # <<>> } }
TypeText(d) == IF Has(d, "type") THEN Local(Get(d, "type")) ELSE "NX_CHAR"
Full(X, type) == { [n |-> Get(d, "name"), required |-> Get(d, "use") = "required", default |-> Default(d), type |-> TypeText(d),
                    patterns |-> PatsOf(X, d), max |-> IF Has(d, "type") THEN LengthOf(X, Get(d, "type")) ELSE ""]
                   : d \in Set(AttrDecls(X, TopNode(X, "complexType", type))) }
BadXsd(c) ==
  LET X == Xsds[c.set]
      got(k) == { [n |-> x.n, required |-> x.required, default |-> x.default, type |-> x.type, patterns |-> Set(x.patterns), max |-> x.max]
                  : x \in Set(c.obs.summary[k]) }
      part(k) == clause("summary of " \o k, got(k) = Full(X, TypeNamed[k]), Diff(Full(X, TypeNamed[k]), got(k)))
      names == { Get(X[i], "name") : i \in { i \in DOMAIN X : X[i].t = "simpleType" /\ StartsWith(Get(X[i], "name"), "valid") } }
      pat(o) == { [n |-> x.n, patterns |-> Set(x.patterns), max |-> x.max] : x \in { x \in Set(o) : StartsWith(x.n, "valid") } }
      want == { [n |-> n, patterns |-> PatternsOf(X, "nx:" \o n), max |-> LengthOf(X, "nx:" \o n)] : n \in names }
      enums(d) == { Get(e, "value") : e \in UNION { UNION { Set(Kids(r, "enumeration")) : r \in Set(Kids(s, "restriction")) } : s \in Set(Kids(d, "simpleType")) } }
      \* the manager has truth values where the schema has texts
      truth(d) == IF Has(d, "type") /\ Local(Get(d, "type")) = "NX_BOOLEAN" /\ Default(d) # <<>>
                  THEN << IF Default(d)[1] \in {"true", "1"} THEN "true" ELSE "false" >> ELSE Default(d)
      rootAttrs == { [n |-> Get(d, "name"), required |-> Get(d, "use") = "required", default |-> truth(d), enum |-> enums(d)]
                     : d \in Set(AttrDecls(X, TopNode(X, "complexType", "definitionType"))) }
      children == { Get(d, "name") : d \in Set(Declared(X, AllParticles(X, TopNode(X, "complexType", "definitionType")))) }
      gotRoot == { [n |-> x.n, required |-> x.required, default |-> x.default, enum |-> Set(x.enum)] : x \in Set(c.obs.root) }
      types == { Get(X[i], "name") : i \in { i \in DOMAIN X : X[i].t = "simpleType" /\ X[i].types } } \ {"anyUnitsAttr", "primitiveType"}
  IN (UNION { part(k) : k \in DOMAIN TypeNamed })
     \cup clause("patterns of the summary", pat(c.obs.simple) = want, Diff(want, pat(c.obs.simple)))
     \cup clause("patterns of the manager", pat(c.obs.patterns) = want, Diff(want, pat(c.obs.patterns)))
     \cup clause("root attributes of the manager", gotRoot = rootAttrs, Diff(rootAttrs, gotRoot))
     \cup clause("components of the manager", Set(c.obs.children) = children, Diff(children, Set(c.obs.children)))
     \cup clause("types of the manager", Set(c.obs.types) = types, Diff(types, Set(c.obs.types)))

(* ------------------------------------------------------------ verdicts *)
Pats(c) == { <<p[1], p[2]>> : p \in Set(c.pats) }
IsValid(c) == c.xml /\ Valid(Xsds[c.set], Pats(c), c.doc)
BadVerdict(c) ==
  LET why == IF ~c.file THEN "missing" ELSE IF ~c.xml THEN "syntax" ELSE IF IsValid(c) THEN "valid" ELSE "invalid"
      want == IF c.how = "cli" /\ why # "valid" THEN "refused" ELSE why
  IN clause("verdict", c.obs.verdict = want, [want |-> want, got |-> c.obs.verdict, how |-> c.how])

(* --------------------------------------------------------------- trees *)
TreeWant(c) ==
  LET l == DefinitionLines(c.doc, c.rank)
      v == IF c.version /\ Has(c.doc, "version")
           THEN SubSeq(l[1], 1, Len(l[1]) - 1) \o ", version " \o Get(c.doc, "version") \o ")" ELSE l[1]
  IN << "file: " \o c.path, "XSLT: " \o c.setpath \o "/" \o FolderOf(Get(c.doc, "category")) \o "/nxdlformat.xsl", v >> \o Tail(l)
BadTree(c) ==
  IF ~c.shown THEN clause("refused", c.obs.exc # "", c.obs)
  ELSE LET w == TreeWant(c)
           g == c.obs.lines
           d == { i \in 1..(IF Len(w) < Len(g) THEN Len(w) ELSE Len(g)) : w[i] # g[i] }
           at == IF d = {} THEN (IF Len(w) < Len(g) THEN Len(w) ELSE Len(g)) + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j
       IN clause("exception", c.obs.exc = "", c.obs.exc)
          \cup clause("lines", c.obs.exc # "" \/ w = g, [at |-> at, want |-> IF at <= Len(w) THEN w[at] ELSE "(end)",
                                          got |-> IF at <= Len(g) THEN g[at] ELSE "(end)"])

Bad(c) == CASE c.kind = "class" -> BadClass(c) [] c.kind = "set" -> BadSet(c) [] c.kind = "xsd" -> BadXsd(c)
            [] c.kind = "verdict" -> BadVerdict(c) [] c.kind = "tree" -> BadTree(c)

JInit == ci = 0
JNext == /\ ci < Len(Cases) /\ ci' = ci + 1
         /\ LET c == Cases[ci'] IN PrintT("@@" \o ToJson([id |-> c.id, bad |-> SetToSeq(Bad(c))]))
JSpec == JInit /\ [][JNext]_ci
=============================================================================
